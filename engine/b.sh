cd /verif/engine && GOFLAGS=-mod=mod GOPROXY=off go build -o /tmp/eng .
