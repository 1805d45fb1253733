for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && export PATH="$d:$PATH" && break
done
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
