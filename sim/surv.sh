#!/bin/sh
# surv.sh RUNS [PROP...]: classes found per family, while working on the simulator.
cd /verif/sim; n=$1; shift
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18}; do ./target/debug/siosim survey --prop $p --runs $n 2>&1 | grep -v "^note\|backtrace\|^$\|^thread\|^called" | cut -c1-420; done
