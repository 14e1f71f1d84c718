NA = []
_P = {
 "C01": "Proved (units runtime, tables) up to the emitted text of rule actions, which is covered boundedly.",
 "C02": "Proved: look-aheads, automaton, compression, tables (units first, closure, states, follow, compress, resort, emit, tables, chain). The completeness theorem of LR parsing is not restated; bounded runs against an Earley recogniser.",
 "C03": "Proved: which rules run, in which order, on which stack entries (unit runtime). Binding of aliases is emitted text: bounded.",
 "C04": "Proved: look-aheads are the least LALR ones, defaults never shift (units first, closure, states, follow, tables, runtime). Viable-prefix theorem bounded.",
 "C05": "Proved for all grammars: precedence of symbols as read, of rules, and every comparison (units acts, conf, chain, front, decls). Bounded runs besides.",
 "C06": "Proved for all grammars: the undecided pairs of the LALR automaton are counted and the macro refuses exactly then (units conf, acts, chain, first, closure, states, follow, front, decls). Bounded runs besides.",
 "C07": "Proved: look-up order, no hidden actions, table, no cycles (units runtime, compress, emit, tables, decls); printing of the table bounded.",
 "C08": "Proved: look-up order, no hidden actions, table (units runtime, compress, emit, tables); printing of the table bounded.",
 "C09": "Proved: every call is a documented sequence of steps (unit runtime); printing of the callbacks bounded.",
 "C10": "Proved: stack length and overflow (unit runtime) given the table invariant of unit tables; printing bounded.",
 "C11": "Proved: indices, assertions, status (units runtime, tables, emit); typed values of emitted code bounded.",
 "C12": "Proved: ExpectedTokens::next (unit runtime); names table bounded.",
 "C13": "Proved: expansion of optionals, forwarding, classes in first sets and closures (units front, first, closure, states); values bounded.",
 "C14": "Proved: packing, integer widths, look-up of the emitted numbers (units acttab, emit, resort, find, chain, tables); printing bounded.",
 "C15": "Proved: faults refused by new_from_decls, prepare, normalize_rules, find_states, closure, find_actions (units decls, front, states, closure, conf, chain); syntax and emission errors bounded.",
 "C16": "Proved: extra threaded unchanged (unit runtime); token_extra emission bounded.",
}
for _p in ["C%02d" % i for i in range(1, 17)]:
    LEVEL[_p] = "proof" if _p in ("C05", "C06", "C07", "C08", "C09", "C10", "C14") else "exploration"
    NOTE[_p] = _P[_p] + " Bounded part: random and fixed grammars compiled by the real macro, compared with an independent reference."
