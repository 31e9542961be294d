cd /tmp/mut; export ALLREF="$*"; for f in c*.py http.py fs.py memfs.py; do python3 $f 2>&1 | grep -v "^ok" ; done
