def CF(control, misuse):
    return r'''#!/bin/bash
# a program that misuses the library must not compile, the same program without the misuse must
set -e
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/demo/src"
cp "$repo/Cargo.lock" "$scratch/demo/Cargo.lock"
cat > "$scratch/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
measureme = { path = "$repo/measureme" }
EOF
cd "$scratch/demo"
cat > src/lib.rs <<'EOF'
''' + control.strip() + r'''
EOF
CARGO_TARGET_DIR="$scratch/target" cargo check -q --offline
cat > src/lib.rs <<'EOF'
''' + misuse.strip() + r'''
EOF
if CARGO_TARGET_DIR="$scratch/target" cargo check -q --offline 2> "$scratch/err"; then
  echo "the misuse compiles"; exit 1
fi
'''
SEP = "measureme/src/serialization.rs"; PRP = "measureme/src/profiler.rs"

S("c31-finish-borrowed", "C31", [(PRP, """    pub fn finish_recording_interval_event(&self, timing: DetachedTiming) {
        drop(""", """    pub fn finish_recording_interval_event(
        &self,
        timing: impl std::borrow::Borrow<DetachedTiming>,
    ) {
        // Callers may keep the timing in a struct of theirs.
        let timing = timing.borrow();
        drop(""")], None, "a client that hands in a reference to its timing, and does so again", "one started interval can be recorded any number of times", script=CF("""
use measureme::*;
pub fn f(p: &Profiler, t: DetachedTiming) { p.finish_recording_interval_event(t); }
""", """
use measureme::*;
pub fn f(p: &Profiler, t: &DetachedTiming) { p.finish_recording_interval_event(t); p.finish_recording_interval_event(t); }
"""))

S("c31-peek-bytes", "C31", [(SEP, """    pub fn into_bytes(mut self) -> Vec<u8> {
        // Swap out the contains of `self` with something that can safely be
        // dropped without side effects.
        let mut data = Mutex::new(SerializationSinkInner {
            buffer: Vec::new(),
            addr: 0,
        });
        std::mem::swap(&mut self.data, &mut data);

        // Extract the data from the mutex.
        let SerializationSinkInner {
            ref mut buffer,
            addr: _,
        } = data.into_inner();
""", """    pub fn into_bytes(&self) -> Vec<u8> {
        // Swap out the contains of `self` with something that can safely be
        // dropped without side effects.
        let mut data = SerializationSinkInner {
            buffer: Vec::new(),
            addr: 0,
        };
        std::mem::swap(&mut *self.data.lock(), &mut data);

        let SerializationSinkInner {
            ref mut buffer,
            addr: _,
        } = data;
""")], None, "a client that goes on writing to a stream after it took its bytes", "such a program compiles, and its later addresses start over at zero", script=CF("""
use measureme::*;
pub fn f(s: SerializationSink) -> Vec<u8> { s.write_bytes_atomic(b"x"); s.into_bytes() }
""", """
use measureme::*;
pub fn f(s: SerializationSink) -> (Vec<u8>, Addr) { let b = s.into_bytes(); (b, s.write_bytes_atomic(b"x")) }
"""))

S("c31-copied-timing", "C31", [(PRP, """#[must_use]
pub struct DetachedTiming {""", """#[must_use]
#[derive(Clone)]
pub struct DetachedTiming {""")], None, "a client that clones a timing", "one started interval can be recorded any number of times", script=CF("""
use measureme::*;
pub fn f(p: &Profiler, t: DetachedTiming) { p.finish_recording_interval_event(t); }
""", """
use measureme::*;
pub fn f(p: &Profiler, t: DetachedTiming) { p.finish_recording_interval_event(t.clone()); p.finish_recording_interval_event(t); }
"""))
