cd /verif; . ./env.sh
GOVC_DEBUG=1 timeout -s QUIT ${2:-20} ./bin/govc check -prop $1 -noreplay -v ${3:+-fn $3} > /tmp/o 2>&1; grep  "^loop\|^trial" /tmp/o | cut -c1-200 | head -${N:-20}; grep -A400 "goroutine 1 " /tmp/o | grep "^main\.\|^	/verif" | paste - - | awk '{print $1,$3}' | cut -c1-100 | head -40
