mm() { python3 /tmp/w/mm.py "$@"; }
