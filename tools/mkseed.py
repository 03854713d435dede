#!/usr/bin/env python3
"""Confirm planted changes and write them to seeded/.

usage: mkseed.py BUGS.py [id...]    (BUGS.py defines BUGS, a list of dicts)
Works in a scratch copy of /repo, which it removes.
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken
d=$(cd "$(dirname "$0")" && pwd)
f=$(mktemp)
echo "{\\"Replace\\": {\\"$PWD/vtdxml/parser/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" >"$f"
go test -count=1 -timeout 200s -overlay "$f" -run '^TestDemo$' ./vtdxml/parser/
rc=$?
rm -f "$f"
exit $rc
'''
IMPORTS = {
 'parser.': 'github.com/alexZaicev/go-vtd-xml/vtdxml/parser',
 'navigation.': 'github.com/alexZaicev/go-vtd-xml/vtdxml/navigation',
 'buffer.': 'github.com/alexZaicev/go-vtd-xml/vtdxml/buffer',
 'common.': 'github.com/alexZaicev/go-vtd-xml/vtdxml/common',
 'erroring.': 'github.com/alexZaicev/go-vtd-xml/vtdxml/erroring',
 'reader.': 'github.com/alexZaicev/go-vtd-xml/vtdxml/reader',
 'modifier.': 'github.com/alexZaicev/go-vtd-xml/vtdxml/modifier',
 'pilot.': 'github.com/alexZaicev/go-vtd-xml/vtdxml/pilot',
 'strings.': 'strings', 'fmt.': 'fmt', 'errors.': 'errors', 'bytes.': 'bytes',
}
LIB = {
 'parse(': '''
func parse(doc string, ns bool, lc int) (*navigation.VtdNav, error) {
	p, err := parser.NewVtdParser(parser.WithXmlDoc([]byte(doc)), parser.WithNameSpaceAware(ns), parser.WithLcDepth(lc))
	if err != nil {
		return nil, err
	}
	if err := p.Parse(); err != nil {
		return nil, err
	}
	return p.GetNav()
}
''',
 'accept(': '''
func accept(t *testing.T, doc string, ns bool) {
	t.Helper()
	if _, err := parse(doc, ns, 3); err != nil {
		t.Errorf("%.200q is well-formed but was rejected: %v", doc, err)
	}
}
''',
 'reject(': '''
func reject(t *testing.T, doc string, ns bool) {
	t.Helper()
	if _, err := parse(doc, ns, 3); err == nil {
		t.Errorf("%.200q must be rejected but was accepted", doc)
	}
}
''',
 'window(': '''
func window(doc string, offset, length int) error {
	p, err := parser.NewVtdParser(parser.WithXmlDocCustomOffset([]byte(doc), offset, length))
	if err != nil {
		return err
	}
	return p.Parse()
}
''',
 'mustNav(': '''
func mustNav(t *testing.T, doc string, ns bool, lc int) *navigation.VtdNav {
	t.Helper()
	n, err := parse(doc, ns, lc)
	if err != nil {
		t.Fatalf("%.200q was rejected: %v", doc, err)
	}
	return n
}
''',
 'walk(': '''
// walk makes the moves and returns the name of the element it ends at; a
// move written in lower case must fail, one in upper case must succeed
func walk(t *testing.T, n *navigation.VtdNav, moves string) string {
	t.Helper()
	dirs := map[rune]navigation.Direction{'R': navigation.Root, 'U': navigation.Parent, 'F': navigation.FirstChild,
		'L': navigation.LastChild, 'N': navigation.NextSibling, 'P': navigation.PrevSibling}
	for i, m := range moves {
		want := m < 'a'
		if !want {
			m -= 'a' - 'A'
		}
		got, err := n.ToElement(dirs[m])
		if err != nil {
			t.Fatalf("move %d of %s: %v", i, moves, err)
		}
		if got != want {
			t.Fatalf("move %d of %s: got %v", i, moves, got)
		}
	}
	idx, err := n.GetCurrentIndex()
	if err != nil {
		t.Fatal(err)
	}
	s, err := n.ToRawStringAtIndex(int(idx))
	if err != nil {
		t.Fatal(err)
	}
	return s
}
''',
 'tokens(': '''
// tokens lists the tokens as type:text
func tokens(t *testing.T, n *navigation.VtdNav) string {
	t.Helper()
	s := ""
	for i := 0; i < n.GetVtdBufferSize(); i++ {
		ty, err := n.GetTokenType(i)
		if err != nil {
			t.Fatal(err)
		}
		v, err := n.ToRawStringAtIndex(i)
		if err != nil {
			t.Fatal(err)
		}
		s += fmt.Sprintf("%d:%s|", ty, v)
	}
	return s
}
''',
}

def sh(cmd, cwd=None, ok=True):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=600)
    if ok and r.returncode != 0:
        raise SystemExit('%s\n%s%s' % (cmd, r.stdout, r.stderr))
    return r

def demo_go(body):
    src = body
    lib = ''
    while True:
        add = [k for k in LIB if k in src and LIB[k] not in src]
        if not add:
            break
        for k in add:
            src += LIB[k]
    imps = ['testing'] + [v for k, v in IMPORTS.items() if re.search(r'(?<![\w.])' + re.escape(k), src)]
    std = sorted(i for i in imps if '.' not in i)
    ext = sorted(i for i in imps if '.' in i)
    head = 'package parser_test\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in std)
    if ext:
        head += '\n' + ''.join('\t"%s"\n' % i for i in ext)
    return head + ')\n\n' + src.strip() + '\n'

def stable_ok(out):
    base = json.load(open('/opt/vp/BASELINE.json'))
    return base, json.load(open(out))

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    scratch = tempfile.mkdtemp(prefix='mkseed.')
    copy = scratch + '/repo'
    bad = []
    try:
        for b in ns['BUGS']:
            if want and b['id'] not in want:
                continue
            if os.path.exists(copy):
                shutil.rmtree(copy)
            sh('cp -a /repo %s' % copy)
            err = one(b, copy)
            print(b['id'], b['property'], err or 'ok', flush=True)
            if err:
                bad.append(b['id'])
    finally:
        shutil.rmtree(scratch)
    print('rejected:', bad)

def one(b, copy):
    for e in b['edits']:
        f, old, new = e[:3]
        k = e[3] if len(e) > 3 else None
        p = copy + '/vtdxml/' + f
        s = open(p).read()
        n = s.count(old)
        if n == 0 or (n > 1 and k is None):
            return 'edit of %s matches %d times' % (f, n)
        if k is None:
            k = 0
        at = -1
        for _ in range(k + 1):
            at = s.index(old, at + 1)
        s = s[:at] + new + s[at + len(old):]
        open(p, 'w').write(s)
    if sh('gofmt -l vtdxml', copy).stdout:
        return 'gofmt: ' + sh('gofmt -d vtdxml', copy).stdout
    diff = sh('git diff', copy).stdout
    # every removed line is one of the original repository
    cur, line = None, 0
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            cur = l[6:]
            blame = sh('git blame -s HEAD -- ' + cur, '/repo').stdout.split('\n')
        elif l.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', l).group(1))
        elif cur and l.startswith('-') and not l.startswith('---'):
            if not blame[line - 1].startswith('^'):
                return 'changes a line of mine: ' + l
            line += 1
        elif cur and l.startswith(' '):
            line += 1
    d = HERE + '/seeded/' + b['id']
    tmp = copy + '.demo'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/patch.diff', 'w').write(diff)
    open(tmp + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(tmp + '/demo.sh', 0o755)
    open(tmp + '/demo_test.go', 'w').write(demo_go(b['demo']))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(tmp + '/meta.json', 'w'), indent=1)
    sh('gofmt -w demo_test.go', tmp)
    r = sh('go build ./... && go vet ./vtdxml/... 2>/dev/null; go build ./...', copy, ok=False)
    if r.returncode != 0:
        return 'build: ' + r.stderr
    r = sh('go test -count=1 ./... 2>&1', copy, ok=False)
    if r.returncode != 0:
        return 'tests fail: ' + r.stdout[-800:]
    r = sh('bash %s/demo.sh' % tmp, copy, ok=False)
    if r.returncode == 0:
        return 'demo passes with the patch'
    if '[build failed]' in r.stdout or '[setup failed]' in r.stdout:
        return 'demo does not build: ' + r.stdout + r.stderr
    broke = r.stdout
    sh('git checkout -- .', copy)
    r = sh('bash %s/demo.sh' % tmp, copy, ok=False)
    if r.returncode != 0:
        return 'demo fails without the patch: ' + r.stdout + r.stderr
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    return None

main()
