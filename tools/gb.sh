cd /verif/govc; . ../env.sh; gofmt -l -w . ; go vet . && go build -o ../bin/govc .
