cd /verif/checker && gofmt -w *.go; go vet . && go build -o /verif/bin/checker . && ( time CHK_DEBUG=$DBG timeout 300 /verif/bin/checker -property $1 -noevidence $2 > /tmp/o.txt ) 2>&1 | grep real;  grep -c ===== /tmp/o.txt ; tail -${3:-12} /tmp/o.txt | cut -c1-${4:-300}
