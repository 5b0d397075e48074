# Sourced by check.sh, setup.sh and replay.sh from /verif.
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$PWD/target VERIF_DIR=$PWD
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
unset PROPTEST_CASES PROPTEST_MAX_SHRINK_ITERS PROPTEST_RNG_SEED PROPTEST_RNG_ALGORITHM PROPTEST_VERBOSE PROPTEST_MAX_SHRINK_TIME PROPTEST_TIMEOUT PROPTEST_FORK PROPTEST_MAX_LOCAL_REJECTS PROPTEST_MAX_GLOBAL_REJECTS

# build PROFILE: rebuilds from /repo's working tree, decided by content rather than times.
build() {
	mkdir -p target
	(
		flock 9
		sum=$(cd /repo && find Cargo.toml src -type f | sort | xargs sha256sum | sha256sum)
		stamp=target/$1.repo.sum
		if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
			rm -f "$stamp"
			cargo clean --quiet --offline --manifest-path harness/Cargo.toml -p ndarray-slice --profile "$1" 2>/dev/null
		fi
		cargo build --quiet --offline --locked --manifest-path harness/Cargo.toml --profile "$1" 1>&2 || exit 1
		echo "$sum" > "$stamp"
	) 9> target/build.lock
}

# build_san KIND...: the harness with sanitizers, without debug assertions, copied to target/KIND.
export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:symbolize=0:detect_stack_use_after_return=0
export TSAN_OPTIONS=abort_on_error=1:halt_on_error=1:symbolize=0
export MSAN_OPTIONS=abort_on_error=1:symbolize=0
build_san() {
	mkdir -p target
	(
		flock 7
		sum=$({ cd /repo && find Cargo.toml src -type f | sort | xargs sha256sum; cd "$VERIF_DIR/harness" && find Cargo.toml Cargo.lock src -type f | sort | xargs sha256sum; } | sha256sum)
		pids=
		for kind in "$@"; do
			(
				dir=target/$kind
				mkdir -p "$dir"
				[ "$(cat "$dir/sum" 2>/dev/null)" = "$sum" ] && [ -x "$dir/harness" ] && exit 0
				rm -f "$dir/sum"
				export CARGO_TARGET_DIR=$VERIF_DIR/$dir/build RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
				export RUSTFLAGS="-Zsanitizer=$kind --cfg asan --cfg san_$kind"
				target=x86_64-unknown-linux-gnu std=-Zbuild-std
				[ $kind = address ] && std=
				cargo clean --quiet --offline --manifest-path harness/Cargo.toml -p ndarray-slice -p harness --release --target $target 2>/dev/null
				cargo build --quiet --offline --locked --manifest-path harness/Cargo.toml --release $std --target $target 1>&2 || exit 1
				cp "$CARGO_TARGET_DIR/$target/release/harness" "$dir/harness" && echo "$sum" > "$dir/sum"
			) &
			pids="$pids $!"
		done
		for p in $pids; do wait $p || bad=1; done
		[ -z "$bad" ]
	) 7> target/san.lock
}

# build_conf: the servers of C20, one per feature set and profile, copied to target/conf.
CONFS="none: alloc:alloc std:std stacker:std,stacker rayon:rayon both:rayon,stacker"
build_conf() {
	mkdir -p target/conf
	(
		flock 8
		sum=$({ cd /repo && find Cargo.toml src -type f | sort | xargs sha256sum; cd "$VERIF_DIR/conf" && sha256sum Cargo.toml Cargo.lock src/main.rs; } | sha256sum)
		[ "$(cat target/conf/sum 2>/dev/null)" = "$sum" ] && exit 0
		rm -f target/conf/sum
		pids=
		for c in $CONFS; do
			(
				name=${c%%:*} features=${c#*:}
				export CARGO_TARGET_DIR=$VERIF_DIR/target/conf/build-$name
				for profile in dev release; do
					cargo clean --quiet --offline --manifest-path conf/Cargo.toml -p ndarray-slice -p conf --profile $profile 2>/dev/null
					cargo build --quiet --offline --locked --manifest-path conf/Cargo.toml --no-default-features --features "$features" --profile $profile 1>&2 || exit 1
				done
				cp "$CARGO_TARGET_DIR/debug/conf" "target/conf/$name-dev" &&
				cp "$CARGO_TARGET_DIR/release/conf" "target/conf/$name-release"
			) &
			pids="$pids $!"
		done
		for p in $pids; do wait $p || bad=1; done
		[ -z "$bad" ] || exit 1
		echo "$sum" > target/conf/sum
	) 8> target/conf.lock
}
