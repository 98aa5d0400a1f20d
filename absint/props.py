"""Registry of property checks."""
import graphprops
import panics
import loops
import domrules
import remrules
import kindrules
import escrules
import outrules
import docrules
import parserules, contentrules, queryrules, checkrules, treerules, accrules, posrules, wsrules

CHECKS = {}
EXPLAIN = {}
for m in (graphprops, panics, loops, domrules, remrules, kindrules, escrules, outrules, docrules, parserules, contentrules, queryrules, checkrules, treerules, accrules, posrules, wsrules):
    CHECKS.update(m.CHECKS)
    EXPLAIN.update(m.EXPLAIN)
