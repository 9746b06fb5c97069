import subprocess,sys,os
R='/repo/ndt_gslam/'
PG='include/ndt_gslam/slam_optimizer/pose_graph.h'; ET='include/ndt_gslam/utils/eigen_tools.h'; PO='include/ndt_gslam/slam_optimizer/slam2d_policy.h'
RF={
'e1':(['C05','C07','C08','C09'],[(ET,'''  transform2d_t<T> trans_mtx;
  Eigen::Rotation2D<T> rot(trans(2));
  Eigen::Translation<T, 2> transl(trans.head(2));
  return transl * rot;''','''  transform2d_t<T> trans_mtx = transform2d_t<T>::Identity();
  const T co = std::cos(trans(2));
  const T si = std::sin(trans(2));
  trans_mtx.linear() << co, -si, si, co;
  trans_mtx.translation() = trans.template head<2>();
  return trans_mtx;'''),
 (ET,'  return std::atan2(trans.rotation()(1, 0), trans.rotation()(0, 0));\n}\n\ntemplate <typename T>\nT eigt::getDisp','  const auto rot = trans.linear();\n  return std::atan2(rot(1, 0), rot(0, 0));\n}\n\ntemplate <typename T>\nT eigt::getDisp'),
 (ET,'''  return std::sqrt(std::pow(trans.matrix()(0, 2), 2.0) +
                   std::pow(trans.matrix()(1, 2), 2.0));''','  return trans.translation().norm();')]),
'e2':(['C06','C07','C09'],[(ET,'  return atan2(sin(angle), cos(angle));','  const T s = std::sin(angle);\n  const T c = std::cos(angle);\n  return std::atan2(s, c);'),
 (ET,'  return std::atan2(std::sin(to(2) - from(2)), std::cos(to(2) - from(2)));','  return normalizeAngle(to(2) - from(2));'),
 (ET,'''  pose2d_t<T> trans_pose;
  trans_pose(0) = to(0) - from(0);
  trans_pose(1) = to(1) - from(1);
  trans_pose(2) = normalizeAngle(to(2) - from(2));
''','''  pose2d_t<T> trans_pose = to - from;
  trans_pose(2) = normalizeAngle(trans_pose(2));
''')]),
'e3':(['C07'],[(ET,'''  // calculate base axes of pose from
  Eigen::Matrix<T, 2, 1> k_base0(1, 0);
  Eigen::Matrix<T, 2, 1> k_base1(0, 1);
  auto trans_from = eigt::getTransFromPose(from);
  Eigen::Matrix<T, 2, 1> from_base0 = trans_from.linear() * k_base0;
  Eigen::Matrix<T, 2, 1> from_base1 = trans_from.linear() * k_base1;

  auto trans_to = eigt::getTransFromPose(to);
  Eigen::Matrix<T, 2, 1> to_base0 = trans_to.linear() * k_base0;
  Eigen::Matrix<T, 2, 1> to_base1 = trans_to.linear() * k_base1;

  transform2d_t<T> T1;
  T1.linear() << from_base0, from_base1;

  transform2d_t<T> T2;
  T2.linear() << to_base0, to_base1;

  transform2d_t<T> T_all;
  T_all.linear() = T1.linear() * T2.linear().inverse();
  T_all.translation() = T2.linear().inverse() * (from.head(2) - to.head(2));
  return T_all;''','''  return eigt::getTransFromPose(to).inverse() * eigt::getTransFromPose(from);''')]),
'e4':(['C08'],[(ET,'''  Eigen::Matrix<T, 4, 4> new_trans;
  pose2d_t<T> pose = getPoseFromTransform<T>(trans);
  Eigen::AngleAxis<T> init_rotation(pose(2), Eigen::Matrix<T, 3, 1>::UnitZ());
  Eigen::Translation<T, 3> init_translation(pose(0), pose(1), 0);
  return (init_translation * init_rotation).matrix();''','''  Eigen::Matrix<T, 4, 4> new_trans = Eigen::Matrix<T, 4, 4>::Identity();
  for (int i = 0; i < 2; ++i) {
    for (int j = 0; j < 2; ++j) {
      new_trans(i, j) = trans.rotation()(i, j);
    }
    new_trans(i, 3) = trans.translation()(i);
  }
  return new_trans;'''),(ET,'''  new_trans.matrix().block(0, 0, 2, 2) = trans.block(0, 0, 2, 2);
  new_trans.matrix().block(0, 2, 2, 1) = trans.block(0, 3, 2, 1);''','''  new_trans.linear() = trans.template topLeftCorner<2, 2>();
  new_trans.translation() = trans.template block<2, 1>(0, 3);''')]),
'p1':(['C10','C09'],[(PO,'''    JacobianMatrix aij = JacobianMatrix::Ones();
    JacobianMatrix bij = JacobianMatrix::Ones();
''','''    JacobianMatrix aij;
    JacobianMatrix bij;
'''),(PO,'''    aij(0, 0) = -co;
    aij(0, 1) = -si;
    aij(0, 2) = -si * dist(0) + co * dist(1);
    aij(1, 0) = si;
    aij(1, 1) = -co;
    aij(1, 2) = -co * dist(0) - si * dist(1);
    aij(2, 0) = 0;
    aij(2, 1) = 0;
    aij(2, 2) = -1;
''','''    aij << -co, -si, co * dist(1) - si * dist(0),
           si, -co, -(co * dist(0) + si * dist(1)),
           0, 0, -1;
'''),(PO,'''    bij(0, 0) = co;
    bij(0, 1) = si;
    bij(0, 2) = 0;
    bij(1, 0) = -si;
    bij(1, 1) = co;
    bij(1, 2) = 0;
    bij(2, 0) = 0;
    bij(2, 1) = 0;
    bij(2, 2) = 1;
''','''    bij.setIdentity();
    bij.topLeftCorner<2, 2>() = Eigen::Rotation2Dd(angle).toRotationMatrix().transpose();
'''),(PO,'return transMatToVec(zij.inverse() * (xi.inverse() * xj));','const TransformMatrix predicted = xi * zij;\n    return transMatToVec(predicted.inverse() * xj);'),
(PO,'''    Pose ret;
    ret = a + b;
    ret(2) = eigt::normalizeAngle(a(2) + b(2));
    return ret;''','''    Pose ret(a(0) + b(0), a(1) + b(1), 0.0);
    ret(2) = eigt::normalizeAngle(a(2) + b(2));
    return ret;''')]),
'g1':(['C01','C02','C03'],[(PG,'''private:
  std::vector<std::unique_ptr<E>> edges_;''','''private:
  bool isLiveEdge(const Id id) const
  {
    return id < edges_.size() && edges_[id] != nullptr;
  }
  std::vector<std::unique_ptr<E>> edges_;'''),(PG,'''  if (edge_id >= edges_.size())
    return false;
  if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), edge_id) !=
      id_edge_pool_.end())
    return false;
''','''  if (!isLiveEdge(edge_id))
    return false;
'''),(PG,'''const typename Graph<P, T>::E& Graph<P, T>::getEdge(const Id id) const
{
  if (id >= edges_.size()) {
    throw std::out_of_range("getEdge id is too big");
  } else if (std::find(id_edge_pool_.begin(), id_edge_pool_.end(), id) !=
             id_edge_pool_.end()) {
    throw std::out_of_range("getEdge edge with 'id' is deleted");
  } else {
    return *edges_[id];
  }''','''const typename Graph<P, T>::E& Graph<P, T>::getEdge(const Id id) const
{
  if (!isLiveEdge(id)) {
    throw std::out_of_range("getEdge no edge with this id");
  }
  return *edges_[id];'''),(PG,'''    return *nodes_[id];
  }
}
''','''    return *nodes_.at(id);
  }
}
''',2)]),
'g2':(['C01','C03'],[(PG,'''  std::unique_ptr<E> e_ptr(new E(std::move(edg)));
  size_t id;
  if (id_edge_pool_.empty()) {
    edges_.push_back(std::move(e_ptr));
    size_t edge_id = edges_.size() - 1;
    id = edge_id;
  } else {
    // previously deleted edges left unallocated possitions. Fill in new edge.
    size_t free_id = id_edge_pool_.back();
    id_edge_pool_.pop_back();
    edges_[free_id] = std::move(e_ptr);
    id = free_id;
  }
  edges_[id]->setId(id);
  nodes_[edges_[id]->getFrom()->getId()]->addEdgeOut(edges_[id].get());
  nodes_[edges_[id]->getTo()->getId()]->addEdgeIn(edges_[id].get());
  return id;''','''  size_t id = edges_.size();
  if (!id_edge_pool_.empty()) {
    id = id_edge_pool_.back();
    id_edge_pool_.pop_back();
    edges_[id].reset(new E(std::move(edg)));
  } else {
    edges_.emplace_back(new E(std::move(edg)));
  }
  E& added = *edges_[id];
  added.setId(id);
  const size_t from = added.getFrom()->getId();
  const size_t to = added.getTo()->getId();
  nodes_[to]->addEdgeIn(&added);
  nodes_[from]->addEdgeOut(&added);
  return id;'''),(PG,'''  auto it = std::find(edges_in_.begin(), edges_in_.end(), e);
  if (it == edges_in_.end()) {
    // no existing edge like specified id added .
    edges_in_.push_back(e);
    return true;
  }
  return false;''','''  for (size_t i = 0; i < edges_in_.size(); ++i) {
    if (edges_in_[i] == e)
      return false;
  }
  edges_in_.push_back(e);
  return true;'''),(PG,'''  std::unique_ptr<N> n_ptr(new N(std::move(node)));
  // std::unique_ptr<N> n_ptr(new N);
  nodes_.push_back(std::move(n_ptr));
  size_t node_id = nodes_.size() - 1;
  nodes_[node_id]->setId(node_id);
  return node_id;''','''  nodes_.push_back(std::make_unique<N>(std::move(node)));
  nodes_.back()->setId(nodes_.size() - 1);
  return nodes_.back()->getId();''')]),
'g3':(['C03'],[(PG,'''  edges_out_.erase(std::remove(edges_out_.begin(), edges_out_.end(), e),
                   edges_out_.end());
  edges_in_.erase(std::remove(edges_in_.begin(), edges_in_.end(), e),
                  edges_in_.end());
''','''  auto out = std::find(edges_out_.begin(), edges_out_.end(), e);
  if (out != edges_out_.end())
    edges_out_.erase(out);
  auto in = std::find(edges_in_.begin(), edges_in_.end(), e);
  if (in != edges_in_.end())
    edges_in_.erase(in);
''')]),
'g4':(['C04'],[(PG,'''    // first element can be an empty field too
    while (current_ != end_ && *current_ == nullptr) {
      ++current_;
    }
  }
  self_type operator++()
  {
    ++current_;
    // in case of empty field in list skip this field and go on
    while (current_ != end_ && *current_ == nullptr) {
      ++current_;
    }
    return *this;
  }
  self_type operator++(int)
  {
    self_type old(*this);
    ++current_;
    // in case of empty field in list skip this field and go on
    while (current_ != end_ && current_->get() == nullptr) {
      ++current_;
    }
    return old;
  }
''','''    skipEmpty();
  }
  void skipEmpty()
  {
    for (; current_ != end_; ++current_) {
      if (*current_)
        break;
    }
  }
  self_type operator++()
  {
    ++current_;
    skipEmpty();
    return *this;
  }
  self_type operator++(int)
  {
    self_type old = *this;
    ++(*this);
    return old;
  }
''',2)]),
}
def run(k):
    props,eds=RF[k]
    try:
        for e in eds:
            f,a,b=e[:3]; p=R+f; s=open(p).read(); n=e[3] if len(e)>3 else 1
            if s.count(a)!=n: print('BADEDIT',k,s.count(a),a); return
            open(p,'w').write(s.replace(a,b))
        bb=subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True,text=True)
        if bb.returncode: print(k,'BUILD FAILS',bb.stdout[-500:]); return
        for p in (sys.argv[2].split(',') if len(sys.argv)>2 else props):
            r=subprocess.run(['python3-vt','vc/check.py',p],cwd='/verif',capture_output=True,text=True)
            print(k,p,r.returncode,[l[:260] for l in r.stdout.splitlines() if 'NOTE' in l or 'VIOLATION' in l],flush=True)
    finally:
        subprocess.run(['git','-C','/repo','checkout','--','.'])
for k in (sys.argv[1].split(',') if len(sys.argv)>1 and sys.argv[1] else RF): run(k)
subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True)
