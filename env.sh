# sourced by check.sh and setup.sh
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=
export GOSYM_VERIF="${GOSYM_VERIF:-$here}"
build_engine() {
	mkdir -p "$here/bin" || return 1
	(
		flock 9
		local sum; sum="$(cat "$here"/engine/*.go "$here"/engine/go.mod "$here"/engine/go.sum | sha256sum)"
		[ -x "$here/bin/gosym" ] && [ "$(cat "$here/bin/gosym.sum" 2>/dev/null)" = "$sum" ] && exit 0
		cd "$here/engine" && GOFLAGS=-mod=mod go build -o "$here/bin/gosym.new" . &&
			mv "$here/bin/gosym.new" "$here/bin/gosym" && echo "$sum" >"$here/bin/gosym.sum"
	) 9>"$here/bin/.lock"
}
