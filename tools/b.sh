. /verif/tools/env.sh; cd /verif/sim && cargo build --release --offline 2>&1 | grep -E "^(error|warning)" -A9 | head -${1:-80}
