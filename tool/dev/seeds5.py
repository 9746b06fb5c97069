exec(open('/verif/tool/dev/mkseed.py').read())
H='include/ndt_gslam/ndt/voxel_grid2d.h'
PRE='''#include <ndt_gslam/ndt/voxel_grid2d.h>
#include <cstdio>
struct C { double v=0; C(){} C(double x):v(x){} C& operator+=(const C&o){v+=o.v;return *this;} };
typedef slamuk::VoxelGrid2D<C> G; typedef Eigen::Vector2d P;
static P at(int x,int y){ return P(0.25*x,0.25*y); }
#define REQ(c) do{ if(!(c)){ std::printf("failed: %s\\n",#c); return 1; } }while(0)
'''
mk('c13-stride','C13',[(H,'return coords.second * width() + coords.first;','return coords.second * std::min(width(), height()) + coords.first;')],PRE+'''int main(){ G g; g.clear(); g.enlarge(-0.5f,-1.f,0.5f,1.f); g.addCell(at(1,1),C(3)); g.addCell(at(-2,-4),C(5));
 REQ(g.width()==5 && g.height()==9); REQ(g.cellExists(at(1,1)) && g[at(1,1)].v==3 && g[at(-2,-4)].v==5);
 G h; h.clear(); h.enlarge(-1.f,-0.25f,1.f,0.25f); h.addCell(at(4,1),C(3)); h.addCell(at(-4,0),C(5)); h.addCell(at(-1,1),C(7));
 REQ(h.validCells()==3 && h[at(4,1)].v==3 && h[at(-4,0)].v==5 && h[at(-1,1)].v==7); return 0; }
''','a grid that is wider than high','two places of a wide grid share a slot')
mk('c14-row','C14',[(H,'new_index = i + up * (new_w) + offset_x;','new_index = i + up * w + offset_x;')],PRE+'''int main(){ G g; g.addCell(at(2,2),C(3)); g.addCell(at(-1,-1),C(5)); g.enlarge(0,0,0.75f,1.f);
 REQ(g.right()==3 && g.up()==4); REQ(g.cellExists(at(2,2)) && g[at(2,2)].v==3); REQ(g.cellExists(at(-1,-1)) && g[at(-1,-1)].v==5); REQ(g.validCells()==3); return 0; }
''','enlarging upwards and to the right at once, not to the left','the cells move to other places')
mk('c15-corner','C15',[(H,'''               static_cast<long>(move) * static_cast<long>(width);
    if (idx >= 0) {''','''               static_cast<long>(move) * static_cast<long>(width);
    if (idx > 0) {''')],PRE+'''int main(){ G g; g.enlarge(-0.5f,-0.5f,0.5f,0.5f); g.addCell(at(-2,2),C(3)); g.addCell(at(1,2),C(4)); g.translate(Eigen::Vector2i(0,-1),true);
 REQ(g.cellExists(at(1,1)) && g[at(1,1)].v==4); REQ(g.cellExists(at(-2,1)) && g[at(-2,1)].v==3); REQ(g.validCells()==3); return 0; }
''','a downward translation with a cell in the upper left corner','the cell in the corner is lost')
mk('c15-wrap','C15',[(H,'''    if (idx < cells_.size() && used < good_cells && unused == 0) {''','''    if (idx < cells_.size() && used < good_cells) {''')],PRE+'''int main(){ G g; g.enlarge(-0.5f,-0.5f,0.5f,0.5f); g.addCell(at(-2,1),C(3)); g.addCell(at(2,2),C(4)); g.addCell(at(-1,0),C(5)); g.translate(Eigen::Vector2i(-2,0),true);
 REQ(g.cellExists(at(0,2)) && g[at(0,2)].v==4); REQ(!g.cellExists(at(2,2)) && !g.cellExists(at(1,2)) && !g.cellExists(at(2,1))); REQ(g.validCells()==1+(g.cellExists(at(-2,0))?1:0)); return 0; }
''','a translation to the left by more than one cell','cells of the next row wrap around')
mk('c16-move','C16',[(H,'''    if (merging) {
      *cells_[idx] += cell;
    } else {
      *cells_[idx] = std::move(cell);''','''    if (merging && valid_cells_ > 1) {
      *cells_[idx] += cell;
    } else {
      *cells_[idx] = std::move(cell);''')],PRE+'''int main(){ G g; g.clear(); g.addCell(at(2,1),C(3)); g.addCell(at(2,1),C(4)); REQ(g[at(2,1)].v==7); g.addCell(at(0,0),C(1)); g.addCell(at(2,1),C(4)); REQ(g[at(2,1)].v==11); return 0; }
''','merging a temporary into the only cell of the grid','the value of the cell is overwritten')
mk('c16-assign','C16',[(H,'''  , width_left_(other.width_left_)
  , width_right_(other.width_right_)
  , height_up_(other.height_up_)
  , height_down_(other.height_down_)
  , valid_cells_(other.valid_cells_)''','''  , width_left_(other.width_left_)
  , width_right_(other.width_right_)
  , height_up_(other.height_up_)
  , height_down_(other.height_up_)
  , valid_cells_(other.valid_cells_)''')],PRE+'''int main(){ G g; g.enlarge(-0.5f,-0.5f,0.25f,0.75f); g.addCell(at(1,-2),C(3)); G c(g); REQ(c.down()==g.down() && c.up()==g.up()); REQ(c.isInside(at(1,-2)) && !c.isInside(at(1,-3))); REQ(c[at(1,-2)].v==3); return 0; }
''','copying a grid that reaches further up than down','points below the copy count as inside')
mk('c17-clip','C17',[(H,'''  if (down > height())
    down = height();''','''  if (down > height())
    down = std::max(width(), height());''')],PRE+'''int main(){ G g; g.clear(); g.enlarge(-1.f,-0.25f,1.f,0.25f); g.addCell(at(0,-1),C(1)); g.addCell(at(3,1),C(2)); REQ(g.getNeighbors(at(0,-1),1).size()==1); REQ(g.getNeighbors(at(0,0),3).size()==2); auto n=g.getNeighbors(at(3,1),3); REQ(n.size()==2 && n[0]->v==2 && n[1]->v==1); return 0; }
''','a window that reaches below a grid wider than high','memory behind the last row is read',libs='-fsanitize=address')
mk('c18-steep','C18',[(H,'double length = std::max(length_x, length_y);','double length = length_x + length_y > 8 ? std::max(length_x, length_y) : length_x;')],PRE+'''int main(){ G g; g.enlarge(-3,-3,3,3); g.clear(); REQ(g.rayTrace(at(0,0),at(6,1)).size()==g.rayTrace(at(0,0),at(1,6)).size()); REQ(g.rayTrace(at(0,0),at(0,5)).size()==g.rayTrace(at(0,0),at(5,0)).size()); return 0; }
''','a short steep ray','the ray ends long before its end point')
