id = "c10-reset-is-eof"
property = "C10"
needs = "standard input that fails in the middle with ECONNRESET (a socket whose peer resets the connection)"
breaks = "the failure is taken for the end of input: the tool prints a digest of the truncated data and exits with status 0"
edits = [("baokeshed_bin/src/main.rs", """            Input::Stdin => io::stdin().read(buf),""",
"""            Input::Stdin => match io::stdin().read(buf) {
                // The other end of a pipe or socket went away.
                Err(ref e)
                    if e.kind() == io::ErrorKind::BrokenPipe
                        || e.kind() == io::ErrorKind::ConnectionReset =>
                {
                    Ok(0)
                }
                result => result,
            },""")]
demo = r'''
#!/bin/bash
# A socket on standard input is reset by its peer: no digest may be printed.
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
(cd "$repo/baokeshed_bin" && CARGO_TARGET_DIR="$scratch/target" cargo build --offline -q) || exit 2
python3 - "$scratch/target/debug/baokeshed" <<'END'
import re, socket, struct, subprocess, sys
listener = socket.socket()
listener.bind(("127.0.0.1", 0))
listener.listen(1)
peer = socket.create_connection(listener.getsockname())
conn, _ = listener.accept()
peer.sendall(b"x" * 100)
p = subprocess.Popen([sys.argv[1]], stdin=conn, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
conn.close()
import time
time.sleep(0.5)
peer.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
peer.close()
out, err = p.communicate(timeout=20)
print(p.returncode, out, err)
sys.exit(0 if p.returncode != 0 and not re.search(rb"[0-9a-f]{64}", out) else 1)
END
'''
