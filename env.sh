# builds the driver of the simulator if it is not there
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
VERIF_DIR=$(pwd)
export VERIF_DIR
VRUN=$VERIF_DIR/build/bin/vrun
mkdir -p build/bin
(cd sim && go build -o "$VRUN.$$" ./cmd/vrun) && mv "$VRUN.$$" "$VRUN" || { echo "cannot build the simulator's driver" >&2; exit 2; }
