"""helper: mk(id,title,statement,over,qtext,why,files,mech,technique,note)"""
import json, os
def mk(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    if na: d["not_applicable"] = na
    else: d["technique"], d["level_note"] = technique, note
    json.dump(d, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), id + ".json"), "w"), indent=1)
