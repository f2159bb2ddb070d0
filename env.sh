# Environment and build functions shared by check, replay and setup.sh.
# (VERIF_REPO and VERIF_OUT serve development only: trying the checks on a
# scratch copy. The registered commands run against /repo.)
export VERIF_DIR="$PWD" REPO="${VERIF_REPO:-/repo}" OUT="${VERIF_OUT:-$PWD/out}"
if [ -d /opt/veriftools/go1.27.3/bin ]; then export PATH="/opt/veriftools/go1.27.3/bin:$PATH"; fi
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
unset GOMAXPROCS GODEBUG GOGC GOMEMLIMIT GORACE GOTRACEBACK
mkdir -p "$OUT/bin" "$OUT/replay" evidence
compile() {
	# A copy of go.mod, so that the committed one is never rewritten; one for
	# each kind of build, since they run at the same time.
	local mod="$OUT/go-${FUNCNAME[1]}"
	sed "s|=> /repo|=> $REPO|" mon/go.mod >"$mod.mod" && cp mon/go.sum "$mod.sum" || return 1
	(cd mon && go build -modfile="$mod.mod" -mod=mod "$@" .)
}
build() { compile -o "$OUT/bin/mon"; }
build_32() { GOARCH=386 CGO_ENABLED=0 compile -o "$OUT/bin/mon32"; }
build_race() { CGO_ENABLED=1 compile -race -o "$OUT/bin/mon-race"; }

# The packages under test instrumented for libFuzzer, the harness not.
build_fuzz() {
	CGO_ENABLED=1 CC=clang compile -tags libfuzzer -buildmode=c-archive -gcflags='github.com/suapapa/go_hangul/...=-d=libfuzzer -l' -o "$OUT/fuzz.a" &&
		clang -fsanitize=fuzzer "$OUT/fuzz.a" -o "$OUT/bin/mon-fuzz"
}
