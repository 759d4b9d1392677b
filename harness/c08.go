package main

import (
	"fmt"
	"reflect"
	"sync"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
)

// childrenOf returns the children of a node in the order of the printed form.
func childrenOf(n ast.Node) []ast.Node {
	var out []ast.Node
	switch m := n.(type) {
	case *ast.File:
		for _, r := range m.Rules {
			out = append(out, r)
		}
	case *ast.Rule:
		out = append(out, m.Match)
		if m.Condition != nil {
			out = append(out, m.Condition)
		}
		out = append(out, m.Result)
	case *ast.SExpr:
		if m.Binding != "" {
			out = append(out, m.Binding)
		}
		out = append(out, m.Op)
		if m.AuxInt != nil {
			out = append(out, m.AuxInt)
		}
		if m.Aux != nil {
			out = append(out, m.Aux)
		}
		for _, a := range m.Args {
			out = append(out, a)
		}
	case ast.OpcodeParts:
		for _, p := range m {
			out = append(out, p)
		}
	}
	return out
}

// nodeTree is the reference tree of nodes.
type nodeTree struct {
	node ast.Node
	kids []*nodeTree
	size int
}

func treeFrom(n ast.Node) *nodeTree {
	t := &nodeTree{node: n, size: 1}
	for _, k := range childrenOf(n) {
		kt := treeFrom(k)
		t.kids = append(t.kids, kt)
		t.size += kt.size
	}
	return t
}

func (t *nodeTree) preorder(out []*nodeTree) []*nodeTree {
	out = append(out, t)
	for _, k := range t.kids {
		out = k.preorder(out)
	}
	return out
}

// sameNode reports whether a and b are the same node: identical if they have an
// identity, and equal otherwise.
func sameNode(a, b ast.Node) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) || a == nil {
		return false
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.Slice:
		return va.Len() == vb.Len() && (va.Len() == 0 || va.Pointer() == vb.Pointer())
	default:
		return a == b
	}
}

func kindOf(n ast.Node) string {
	if n == nil {
		return "nil"
	}
	return reflect.TypeOf(n).String()
}

// tracer is a visitor that follows a plan: the visitor of the k-th visit returns
// no visitor if pruned there, and otherwise a new one.
type tracer struct {
	s  *trace
	id int // number of the visit that made this visitor; -1 for the first
}

type trace struct {
	prune func(k int) bool
	same  bool // return the same visitor instead of new ones
	kind  int  // kind of visitors; -1 for any
	seen  []ast.Node
	by    []int
	limit int
}

// visit records a visit. It returns the next tracer, or nil to end the descent.
func (t *tracer) visit(n ast.Node) *tracer {
	k := len(t.s.seen)
	if k > t.s.limit {
		return nil // an endless traversal is reported by its length
	}
	t.s.seen = append(t.s.seen, n)
	t.s.by = append(t.s.by, t.id)
	if t.s.prune(k) {
		return nil
	}
	if t.s.same {
		return t
	}
	return &tracer{t.s, k}
}

// Visitors come in all kinds of Go types, those that cannot be compared included.
type (
	pointerVisitor struct{ t *tracer }
	structVisitor  struct {
		t    *tracer
		path []int
	}
	valueVisitor struct {
		t *tracer
		n int
	}
	funcVisitor  func(n ast.Node) ast.Visitor
	mapVisitor   map[string]*tracer
	sliceVisitor []*tracer
	arrayVisitor [1]*tracer
	chanVisitor  chan *tracer
	outerVisitor struct{ ast.Visitor }
)

func (v *pointerVisitor) Visit(n ast.Node) ast.Visitor { return v.t.visit(n).visitor() }
func (v structVisitor) Visit(n ast.Node) ast.Visitor   { return v.t.visit(n).visitor() }
func (v valueVisitor) Visit(n ast.Node) ast.Visitor    { return v.t.visit(n).visitor() }
func (v funcVisitor) Visit(n ast.Node) ast.Visitor     { return v(n) }
func (v mapVisitor) Visit(n ast.Node) ast.Visitor      { return v["t"].visit(n).visitor() }
func (v sliceVisitor) Visit(n ast.Node) ast.Visitor    { return v[0].visit(n).visitor() }
func (v arrayVisitor) Visit(n ast.Node) ast.Visitor    { return v[0].visit(n).visitor() }
func (v chanVisitor) Visit(n ast.Node) ast.Visitor {
	t := <-v
	v <- t
	return t.visit(n).visitor()
}

// Visitors may also be zero: nil pointers, maps, functions and so on, which
// are visitors all the same. What they visit is recorded in zeroTracer.
type (
	nilVisitor    struct{ _ int }
	emptyVisitor  struct{}
	nilMap        map[string]int
	nilFunc       func()
	nilSlice      []int
	zeroInt       int
	zeroString    string
	falseVisitor  bool
	nilChan       chan int
	nilPtrVisitor struct{ *nilVisitor }
)

var (
	zeroMu     sync.Mutex
	zeroTracer *tracer
	zeroKinds  = []ast.Visitor{(*nilVisitor)(nil), emptyVisitor{}, nilMap(nil), nilFunc(nil), nilSlice(nil), zeroInt(0), zeroString(""), falseVisitor(false), nilChan(nil), nilPtrVisitor{}}
)

func zeroVisit(n ast.Node, v ast.Visitor) ast.Visitor {
	if zeroTracer.visit(n) == nil {
		return nil
	}
	return v
}

func (v *nilVisitor) Visit(n ast.Node) ast.Visitor  { return zeroVisit(n, v) }
func (v emptyVisitor) Visit(n ast.Node) ast.Visitor { return zeroVisit(n, v) }
func (v nilMap) Visit(n ast.Node) ast.Visitor       { return zeroVisit(n, v) }
func (v nilFunc) Visit(n ast.Node) ast.Visitor      { return zeroVisit(n, v) }
func (v nilSlice) Visit(n ast.Node) ast.Visitor     { return zeroVisit(n, v) }
func (v zeroInt) Visit(n ast.Node) ast.Visitor      { return zeroVisit(n, v) }
func (v zeroString) Visit(n ast.Node) ast.Visitor   { return zeroVisit(n, v) }
func (v falseVisitor) Visit(n ast.Node) ast.Visitor { return zeroVisit(n, v) }
func (v nilChan) Visit(n ast.Node) ast.Visitor      { return zeroVisit(n, v) }

// checkZeroVisitors walks with visitors that are zero values.
func checkZeroVisitors(c *Case, root *nodeTree) bool {
	zeroMu.Lock()
	defer zeroMu.Unlock()
	want := root.preorder(nil)
	for _, v := range zeroKinds {
		s := &trace{prune: func(int) bool { return false }, same: true, limit: root.size + 10}
		zeroTracer = &tracer{s, -1}
		ast.Walk(v, root.node)
		c.Eval(len(want))
		c.w.st.Hist[fmt.Sprintf("visitors: zero %T", v)]++
		if len(s.seen) != len(want) {
			c.Fail("traversal of %s by a zero visitor of type %T visits %d nodes, want %d", kindOf(root.node), v, len(s.seen), len(want))
			return false
		}
		for i := range want {
			if !sameNode(want[i].node, s.seen[i]) {
				c.Fail("traversal of %s by a zero visitor of type %T: visit %d is of %s, want %s", kindOf(root.node), v, i, kindOf(s.seen[i]), kindOf(want[i].node))
				return false
			}
		}
	}
	return true
}

const nVisitors = 9

func visitorKind(k int) string {
	if k < 0 {
		return "of many types"
	}
	return []string{"pointers", "structs that cannot be compared", "structs", "functions", "maps", "slices", "arrays", "channels", "embedded"}[k]
}

// visitor returns a visitor that records its visits in t.
func (t *tracer) visitor() ast.Visitor {
	if t == nil {
		return nil
	}
	kind := t.s.kind
	if kind < 0 { // of any kinds
		r := RNG{uint64(t.id+2) * 0x9e3779b97f4a7c15}
		kind = r.n(nVisitors)
	}
	switch kind {
	case 0:
		return &pointerVisitor{t}
	case 1:
		return structVisitor{t, []int{t.id}}
	case 2:
		return valueVisitor{t, 1}
	case 3:
		return funcVisitor(func(n ast.Node) ast.Visitor { return t.visit(n).visitor() })
	case 4:
		return mapVisitor{"t": t}
	case 5:
		return sliceVisitor{t}
	case 6:
		return arrayVisitor{t}
	case 7:
		ch := make(chanVisitor, 1)
		ch <- t
		return ch
	default:
		return outerVisitor{structVisitor{t, nil}}
	}
}

// checkWalk compares a traversal with the expected one.
func checkWalk(c *Case, root *nodeTree, same bool, salt uint64, num, den int) bool {
	prune := func(k int) bool {
		if num == 0 {
			return false
		}
		r := RNG{salt + uint64(k)*0x9e3779b97f4a7c15}
		return r.p(num, den)
	}
	s := &trace{prune: prune, same: same, limit: root.size + 10}
	// Expected events.
	var want []*nodeTree
	var by []int
	var walk func(t *nodeTree, v int)
	walk = func(t *nodeTree, v int) {
		k := len(want)
		want = append(want, t)
		by = append(by, v)
		if prune(k) {
			return
		}
		w := k
		if same {
			w = -1
		}
		for _, kid := range t.kids {
			walk(kid, w)
		}
	}
	walk(root, -1)
	s.kind = c.n(nVisitors+2) - 2
	if s.kind == -2 {
		s.kind = 0
	}
	c.w.st.Hist[fmt.Sprintf("visitors: %s", visitorKind(s.kind))]++
	ast.Walk((&tracer{s, -1}).visitor(), root.node)
	c.Eval(len(want))
	for i, w := range want {
		if i >= len(s.seen) {
			c.Fail("traversal of %s ends after %d of %d nodes: next is %s", kindOf(root.node), len(s.seen), len(want), kindOf(w.node))
			return false
		}
		if !sameNode(w.node, s.seen[i]) {
			c.Fail("traversal of %s: visit %d of %d is of %s %v, want %s %v", kindOf(root.node), i, len(want), kindOf(s.seen[i]), short(fmt.Sprint(s.seen[i])), kindOf(w.node), short(fmt.Sprint(w.node)))
			return false
		}
		if by[i] != s.by[i] {
			c.Fail("traversal of %s: visit %d of %d, of %s, is by the visitor returned from visit %d, want %d", kindOf(root.node), i, len(want), kindOf(w.node), s.by[i], by[i])
			return false
		}
	}
	if len(s.seen) > len(want) {
		c.Fail("traversal of %s visits %d nodes, want %d: extra %s", kindOf(root.node), len(s.seen), len(want), kindOf(s.seen[len(want)]))
		return false
	}
	// Inspect is the same traversal.
	if same {
		i, bad := 0, -1
		ast.Inspect(root.node, func(n ast.Node) bool {
			k := i
			i++
			if bad < 0 && (k >= len(want) || !sameNode(want[k].node, n)) {
				bad = k
			}
			return k < len(want)+10 && !prune(k)
		})
		if bad >= 0 || i != len(want) {
			c.Fail("Inspect of %s visits %d nodes, want %d; first difference at %d", kindOf(root.node), i, len(want), bad)
			return false
		}
		c.Eval(len(want))
	}
	return true
}

func checkContains(c *Case, root *nodeTree) bool {
	all := root.preorder(nil)
	// A predicate that holds of one node, of none, of a kind.
	k := c.n(len(all))
	if c.p(1, 4) {
		k = len(all) - 1
	}
	target := all[k].node
	if !ast.Contains(root.node, func(n ast.Node) bool { return sameNode(n, target) }) {
		c.Fail("Contains of %s misses node %d of %d, %s", kindOf(root.node), k, len(all), kindOf(target))
		return false
	}
	if ast.Contains(root.node, func(n ast.Node) bool { return false }) {
		c.Fail("Contains of %s finds a node by a predicate that never holds", kindOf(root.node))
		return false
	}
	kinds := map[string]bool{}
	for _, t := range all {
		kinds[kindOf(t.node)] = true
	}
	for _, kind := range allKinds {
		got := ast.Contains(root.node, func(n ast.Node) bool { return kindOf(n) == kind })
		if got != kinds[kind] {
			c.Fail("Contains of %s by kind %s: %v, want %v", kindOf(root.node), kind, got, kinds[kind])
			return false
		}
	}
	c.Eval(2 + len(allKinds))
	return true
}

var allKinds = []string{"*ast.File", "*ast.Rule", "*ast.SExpr", "*ast.Expr", "ast.Variable", "ast.Opcode", "ast.OpcodeParts", "ast.OpcodeAlt"}

// checkTraversal checks traversals that start at a node.
func checkTraversal(c *Case, n ast.Node) bool {
	root := treeFrom(n)
	c.Hit("root: " + kindOf(n))
	for _, t := range root.preorder(nil) {
		c.w.st.Hist["visited: "+kindOf(t.node)]++
	}
	if !checkWalk(c, root, true, c.next(), 0, 1) || !checkWalk(c, root, false, c.next(), 0, 1) {
		return false
	}
	for i := 0; i < 2; i++ {
		den := 1 + c.heavy(40)
		if !checkWalk(c, root, i == 0, c.next(), 1, den) {
			return false
		}
	}
	if c.p(1, 8) && !checkZeroVisitors(c, root) {
		return false
	}
	return checkContains(c, root)
}

// traverseModel checks traversals from the file, and from some or all of the
// nodes within.
func traverseModel(c *Case, m *MFile, f *ast.File) {
	before := canonFileR(f)
	if !checkTraversal(c, f) {
		return
	}
	all := treeFrom(f).preorder(nil)
	step := 1 + len(all)/20
	for i := c.n(step); i < len(all); i += step {
		if all[i].size*step > 20000 {
			continue
		}
		if !checkTraversal(c, all[i].node) {
			return
		}
	}
	if after := canonFileR(f); after != before {
		c.Fail("traversal changed the tree: %s", diff(before, after))
	}
	c.Distinct(before)
	if m != nil {
		c.Traits(m)
		c.Sample(printFileM(m))
	}
}

func init() {
	register(&Check{
		ID:       "C08",
		MinEvals: 100000,
		Rule: "A case is a tree: random, by attribute and place, by size, hand-built, parsed, or expanded. Traversals from the file and from nodes within are recorded, with visitors of all kinds of Go types (those that cannot be compared included) that are kept, replaced at every visit, or end the descent at random visits, " +
			"and every recorded visit is compared with the expected one: the node, and the visitor that got it. Non-trivial: every tree; distinct by tree.",
		Assumptions: []string{"children come in the order of the printed form: binding, opcode, auxint, aux, arguments; match, condition, result"},
		Streams: func(t Tier) []Stream {
			pts := dimPoints()
			tree := func(c *Case, m *MFile) {
				text := plainRend(c.RNG).file(m)
				c.Input(text)
				traverseModel(c, m, treeOf(c, m, text))
			}
			return []Stream{
				{"random", t.n(6000, 400000), func(c *Case) { tree(c, randomModel(c.RNG)) }},
				{"repeated parts", t.n(1500, 60000), func(c *Case) { tree(c, again(c.RNG, randomModel(c.RNG))) }},
				{"attributes", nAttr * 24 * t.n(1, 8), func(c *Case) { tree(c, attrModel(newGen(c.RNG, 8), c.Idx%nAttr, c.Idx/nAttr)) }},
				{"sweep", len(pts), func(c *Case) {
					p := pts[c.Idx]
					tree(c, p.d.make(newGen(c.RNG, 10), p.n))
				}},
				{"huge sizes", len(hugePoints()), func(c *Case) {
					tree(c, hugeModel(c))
					c.Input("")
				}},
				{"expanded", t.n(1000, 50000), func(c *Case) {
					f := builtFile(c, consistentModel(c.RNG, 1+c.n(5)))
					if pass.ExpandAlternates(f) != nil {
						return
					}
					c.Input(canonFileR(f))
					traverseModel(c, nil, f)
				}},
				{"deep", t.n(12, 60), func(c *Case) {
					n := []int{2000, 5000, 10000}[c.Idx%3] + c.n(7)
					g := newGen(c.RNG, 4)
					s := nest(g, n, 0)
					f := toRepoFile(one(&MRule{Match: s, Result: MVar("x")}))
					root := treeFrom(f)
					c.Input(fmt.Sprintf("%d operations within one another", n))
					_ = checkWalk(c, root, true, 0, 0, 1) && checkWalk(c, root, false, 0, 0, 1) && checkWalk(c, root, false, c.next(), 1, 2*n) && checkContains(c, root)
				}},
				{"alternates as roots", t.n(300, 5000), func(c *Case) {
					g := newGen(c.RNG, 4)
					op := toRepoOp(g.altOp(2 + c.heavy(40)))
					checkTraversal(c, op)
					if parts, ok := op.(ast.OpcodeParts); ok {
						for _, p := range parts {
							checkTraversal(c, p)
						}
					}
					checkTraversal(c, ast.OpcodeParts{})
					checkTraversal(c, ast.OpcodeAlt{})
					checkTraversal(c, &ast.File{})
				}},
				{"rule files", numRuleFiles(), func(c *Case) {
					names, _ := ruleFiles()
					f, err := parse.File(names[c.Idx])
					if err != nil {
						c.Fail("%v", err)
						return
					}
					traverseModel(c, nil, f)
				}},
			}
		},
	})
}
