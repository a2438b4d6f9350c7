cd /verif/zkstat && GOFLAGS=-mod=mod GOPROXY=off go build -o /tmp/zk . 
