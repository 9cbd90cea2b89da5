import json
T={
'C01':('hostile-session monitor: exactly-once answer ledger, liveness and exit-status watch on the real server (overflow checks on)',"Random sessions of well-formed messages with hostile documents, positions, names and arguments; every request id is matched with exactly one answer, an exit, panic text or a stall (no CPU use and no output) is a violation. Requests with reserved $/ methods are a listed known finding (dropped inside of tower-lsp)."),
'C02':('position validity monitor over every response, with an independent UTF-16/line model',"Every range in every answer is resolved against the text by an independent position model, and symbol ranges are compared with the characters they cover. U+000B, U+000C, U+0085, U+2028, U+2029 are listed known findings (ropey feature) and stay out of the other generators."),
'C03':('online reference-model monitor (independent lexer/parser/symbol table) of definition, declaration and reference answers',"Answers at sampled positions (all symbol occurrences and their borders) are compared as sets with the symbol table of an independent analyser."),
'C04':('reference-model monitor plus metamorphic re-analysis of the edited text',"Edits are compared with the model, applied, and the edited text is analysed again by the server; refused names are compared with the reference lexer."),
'C05':('reference-model monitor of shifts, with equality of the eager, lazy and rename routes',"Expected renumbering is computed with wide integers by an independent model; capability combinations are sampled."),
'C06':('reference-model monitor of published diagnostics',"The multiset of expected diagnostics (range, related location) from an independent analyser is compared with every publication."),
'C07':('metamorphic fault-injection monitor: valid module versus the same module with one damaged spot',"One malformed statement or run of unrecognised characters is injected; answers about the rest are compared with the undamaged module's, and presence and location of syntax errors with the reference grammar."),
'C08':('trace checker over histories with pipelined requests: order, version and last-write determinism against a fresh server',"Histories over several documents; each publication and answer is compared with that of a fresh session on that text alone."),
'C09':('reference-lexer monitor of decoded semantic tokens',"The delta encoding is decoded with the advertised legend and compared with an independent lexer, token by token."),
'C10':('reference-model monitor of outline, folds, lenses and end hints',"Compared as multisets with an independent analyser, incl. counts in the fold text and lens arguments."),
'C11':('reference-model monitor of graph edges and incoming-edge hints',"The DOT text received by the client and the hints are parsed and compared with the edges of an independent analyser."),
'C12':('reference-model monitor of backtrace hints with a Markdown structure oracle',"Generated JSON annotations; tooltips are parsed line by line and compared with the frames; formatting break-outs are detected structurally."),
'C13':('containment monitor of produced links against a scratch file tree',"Roots and files are created in a scratch directory; expected links are computed by an independent resolver, every produced link must stay below its root."),
'C14':('schedule-exploring trace checker of concurrent graph requests',"Random interleavings of commands, replies, cancellations, edits and queries; liveness while waiting and exactly-once completion are checked on the recorded trace."),
'C15':('recording stand-ins for the VS Code API with injected faults and schedules',"The real extension.ts is bundled and driven through random schedules; every API call and reply is recorded and judged. The stand-ins are trusted to behave like VS Code."),
'C16':('lifecycle trace checker over capability combinations and log levels',"Every advertised feature is probed; framing of stdout is parsed strictly at every log level."),
'C17':('system-call monitor (strace) of the server during hostile sessions',"All file, process and network system calls after startup are judged against an allow list of existence tests below the roots; strace is trusted."),
}
m=dict(version=1,setup_cmd='bash build.sh',checks=[dict(property=k,quick_cmd='bash check.sh '+k,thorough_cmd='VERIF_TIER=thorough bash check.sh '+k,evidence_file='evidence/%s.json'%k,technique='runtime monitoring: '+a,level='exploration',level_note=b+' Holds on the executions observed, not on all.') for k,(a,b) in T.items()],not_applicable=[],notes='No hooks: all monitors observe the unmodified server binary (stdin/stdout, system calls) or the unmodified extension source.')
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
