cd /verif/analyzer; export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
go vet . && go build -o /tmp/an . && /tmp/an -repo /repo -check C16,C17,C18,C19,C20,C21,C22,C23,C24 > /tmp/drv.out; wc -l /tmp/drv.out; cut -c1-${1:-260} /tmp/drv.out | head -${2:-60}
