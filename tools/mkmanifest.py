#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered checks of the analyser and properties.jsonl."""
import json,subprocess,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg=set(l.split()[0] for l in subprocess.run([here+'/bin/gsv','list'],capture_output=True,text=True).stdout.splitlines() if l.strip())
AI="disjunctive abstract interpretation (value numbering + guard facts) of the SSA form"
tech={
'C01':AI+"; error-flow rule at every failing call",
'C02':AI+"; call-order and exit-code rule on every path of main",
'C03':AI+"; call-order and dataflow rule, call-graph effect analysis",
'C04':AI+"; def-use of layer attributes across pipeline stages, wiring dataflow",
'C05':AI+"; typestate of remembered position vs. emitted words",
'C06':AI+"; event-trace typestate of retraction and height",
'C07':AI+"; decision table of temperature and fan emissions",
'C08':AI+"; flag-to-field binding table",
'C09':AI+"; store-on-success-only rule for the option setters",
'C10':AI+"; fixpoint over builder settings across renderer sequence and layer classes",
'C11':AI+"; polynomial normal forms of cut height and print height",
'C12':"call-graph reachability of nondeterminism sources plus cross-run state dataflow",
'C13':"interprocedural mutation-effect and freshness analysis (summaries over SSA)",
'C14':AI+"; loop-coverage rule (counter recognition, exits, per-iteration effects)",
'C15':AI+"; region-algebra normal forms of the stored areas",
'C16':AI+"; operand-role dataflow into the clipping library",
'C17':AI+"; exhaustive case analysis over the orderings of vertex heights",
'C18':AI+"; guard facts at every integer division, counting loop and allocation",
'C19':AI+"; coordinate-wise dataflow and drop-condition analysis",
'C20':AI+"; emission normal forms, format-string taint",
'C21':AI+"; transform pairing and clip-operand dataflow",
'C22':AI+"; guard facts at acceptance of contours and use marks",
'C24':AI+"; region normal forms and layer-index arithmetic",
'C25':AI+"; region normal forms and layer-index arithmetic",
'C26':AI+"; normal forms of the parameters each pattern is created with",
'C23':AI+"; guard facts and polynomial normal forms of offsets",
}
na={
'N01':"a numeric error bound over floating point rounding, melding and clipper geometry; no static argument in reach bounds it",
'N02':"a numeric identity over runtime lengths with rounding at each step; a static analysis here cannot bound the accumulated error",
'N03':"a geometric error bound that depends on accumulated runtime areas of arbitrary paths",
'N04':"depends on the geometric result of polygon clipping on arbitrary models",
'N05':"termination and cost depend on the clipping library's event queue and on model geometry; no ranking argument in reach",
'N06':"crash freedom inside the vendored clipper and for all index expressions over runtime geometry cannot be decided soundly without alarms; known crashes are recorded in DESIGN.md",
'N07':"a numeric share of areas produced by clipping at run time",
}
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
checks=[];nal=[]
for p in props:
    i=p['id']
    if i in reg:
        checks.append({'property':i,'quick_cmd':'./check.sh '+i,'thorough_cmd':'VERIF_TIER=thorough ./check.sh '+i,'evidence_file':'evidence/%s.json'%i,'technique':tech[i],'level':'other',
        'level_note':"Static over-approximation: decided from the current source for every input and path of the analysed functions, nothing is executed. Assumes the standard library, the clipping and STL libraries behave as documented and that the Go type checker and SSA builder are right; see DESIGN.md for the rules and limits of this property."})
    else:
        nal.append({'property':i,'reason':na.get(i,"the check for this property is not finished")})
m={'version':1,'setup_cmd':'./check.sh --build','checks':checks,'not_applicable':nal,
'notes':"One analyser (gsv, Go, vendored golang.org/x/tools) decides all properties from the type-checked SSA form of /repo's current source. No hooks in /repo."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(nal),'not applicable')
