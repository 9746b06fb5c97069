cd /verif/vc; python3-vt /tmp/t.py "$@" 2>&1 | grep -v '\^\^' | cut -c1-600 | tail -${TAIL:-40}
