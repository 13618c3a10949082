"""Writes target/gen/server_main.rs: the staged server's own main.rs plus an entry point for the simulator."""
import os, sys
from stage import write_if_changed, HERE
def gen():
    src = os.path.join(HERE, "target/stage/crates/aptos-language-server/src/bin/main.rs")
    s = open(src).read()
    lines = s.split("\n")
    while lines and (lines[0].startswith("//!") or lines[0].startswith("#![")): lines.pop(0)
    s = "\n".join("// " + l if l.startswith("//!") or l.startswith("#![") else l for l in lines)
    write_if_changed(os.path.join(HERE, "target/gen/server_main.rs"), "#[allow(unused, dead_code)]\npub fn sim_entry() -> String { format!(\"{:?}\", main()) }\n" + s)
if __name__ == "__main__": gen()
