"""Source of properties.jsonl and MANIFEST.json (python3 props_src.py rewrites both)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
PROPS = []
def p(id, title, statement, over, qtext, why, files, mech, note='', level='model_checking', state=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, level=level, state=state, na=na))
exec(open(os.path.join(HERE, 'props_text.py')).read())

def main():
    import specs
    out, checks, na = [], [], []
    for q in PROPS:
        assert len(q['title']) <= 80, q['id']
        out.append(json.dumps(dict(id=q['id'], title=q['title'], statement=' '.join(q['statement'].split()),
            quantifier=dict(over=q['over'], text=' '.join(q['qtext'].split())), why_tests_cant=' '.join(q['why'].split()),
            anchors=dict(files=q['files'], mechanism=[dict(name=n, where=w) for n, w in q['mech']],
                         **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in q['state']]} if q['state'] else {})))))
        if q['id'] in specs.PROPS and not q['na']:
            checks.append(dict(property=q['id'], quick_cmd='python3 check.py %s --tier quick' % q['id'],
                thorough_cmd='python3 check.py %s --tier thorough' % q['id'],
                technique='CBMC symbolic execution of the real C source (goto-cc from /repo) decided by SAT, counterexamples replayed natively under ASan/UBSan',
                level=q['level'], level_note=' '.join((q['note'] or 'bounded model checking; bounds per harness in the evidence file').split())))
        else:
            na.append(dict(property=q['id'], reason=' '.join((q['na'] or 'no check built yet').split())))
    open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(out) + '\n')
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na, hooks=HOOKS)
    open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
HOOKS = dict(guard='LCU_VERIF', enable='the checks compile every repository source with -DLCU_VERIF=1 (no hook is placed in the sources so far)', source_commits=[])
main()
