"""known_findings.jsonl is kept by hand; this lists the repairs in /repo."""
import subprocess
print(subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '6536f96..']).decode())
