// Code generated from tmpl/c13.go.tmpl. DO NOT EDIT.

package h

import (
	"strings"

	rdf "github.com/spdx/gordf/rdfloader/parser"
	"github.com/spdx/tools-golang/spdx/v2/v2_2/rdf/reader"

	"verifharness/sym"
)

// loadAny22 reads a graph, whatever it says: there is no other assertion than
// that the reader returns.
func loadAny22(p *rdf.Parser) {
	doc, err := reader.LoadFromGoRDFParser(p)
	sym.Assert(err != nil || doc != nil, "a document or an error")
	sym.Reach("done")
}

// C13_Triple22: a graph with one triple too many.
func C13_Triple22() {
	sym.Witness("done")
	b := brokenGraph()
	k := b.have[sym.Choice("subject", len(b.have))]
	own := strings.Fields("rdf:type " + rdfProperties[k])
	order := 0
	if sym.Choice("own", 2) == 0 {
		b.put(b.nodes[k], own[sym.Choice("property", len(own))], b.object("object"))
		order = sym.Choice("order", 2)
	} else {
		// a property that belongs to other nodes
		var o *rdf.Node
		if sym.Choice("object", 2) == 0 {
			o = literal("é")
		} else {
			o = b.nodes[nDoc]
		}
		b.put(b.nodes[k], rdfPredicates[sym.Choice("predicate", len(rdfPredicates))], o)
	}
	loadAny22(b.parser(order))
}

// C13_Links22: two more links between the nodes, which may close cycles and
// use a node as several things at once.
func C13_Links22() {
	sym.Witness("done")
	b := brokenGraph()
	ls := b.links()
	l := ls[sym.Choice("link", len(ls))]
	o := b.have[sym.Choice("object", len(b.have))]
	b.put(b.nodes[l.from], l.pred, b.nodes[o])
	// the second one leaves the object of the first, or leads back to its subject
	var second []rdfLink
	for _, m := range ls {
		if m.from == o || sym.Thorough() {
			second = append(second, m)
		}
	}
	if len(second) > 0 {
		m := second[sym.Choice("second", len(second))]
		b.put(b.nodes[m.from], m.pred, b.any("object"))
	} else {
		m := ls[sym.Choice("second", len(ls))]
		b.put(b.nodes[m.from], m.pred, b.nodes[l.from])
	}
	loadAny22(b.parser(sym.Choice("order", 2)))
}

// C13_Missing22: a graph where one triple is missing, cut short or aimed at another node.
func C13_Missing22() {
	sym.Witness("done")
	b := brokenGraph()
	k := sym.Choice("triple", len(b.t))
	switch sym.Choice("how", 4) {
	case 0:
		b.t = append(b.t[:k:k], b.t[k+1:]...)
	case 1:
		b.t = b.t[:k]
	case 2:
		b.t[k].Object = b.object("object")
	case 3:
		b.t[k].Subject = b.any("subject")
	}
	loadAny22(b.parser(sym.Choice("order", 2)))
}

// C13_Text22: any text in the place of any literal or name.
func C13_Text22() {
	sym.Witness("done")
	b := brokenGraph()
	v := ""
	what := sym.Choice("what", 3)
	if what == 0 {
		v = sym.String("v", 10)
	} else {
		v = sym.From("v", refSet, 0, 8)
	}
	switch what {
	case 0: // a literal
		var lits []*rdf.Node
		for _, t := range b.t {
			if t.Object.NodeType == rdf.LITERAL {
				lits = append(lits, t.Object)
			}
		}
		lits[sym.Choice("literal", len(lits))].ID = v
	case 1: // the name of a node
		n := b.any("node")
		n.ID = []string{"", nsDoc, nsDoc + "SPDXRef-"}[sym.Choice("prefix", 3)] + v
	case 2: // the target of a reference
		var refs []*rdf.Node
		for _, t := range b.t {
			if t.Object.NodeType == rdf.RESOURCELITERAL {
				refs = append(refs, t.Object)
			}
		}
		r := refs[sym.Choice("reference", len(refs))]
		r.ID = []string{"", nsSPDX, nsDoc}[sym.Choice("prefix", 3)] + v
	}
	loadAny22(b.parser(0))
}

// C13_Many22: long chains and cycles, and elements that are described again
// and again, are read in reasonable time.
func C13_Many22() {
	sym.Witness("done")
	g := &graph{}
	doc := g.node(nsDoc+"SPDXRef-DOCUMENT", "SpdxDocument")
	shape := sym.Choice("shape", 6)
	n := 60
	if shape < 5 {
		n = []int{6, 20, 60}[sym.Choice("many", 3)]
	}
	// sets of licenses inside of one another take twice the time for every
	// set that is a member twice
	sym.Known("shared-sets", shape == 5)
	var all []*rdf.Node
	for i := 0; i < n; i++ {
		all = append(all, g.node(nsDoc+"SPDXRef-e"+num(i), []string{"Package", "File", "File", "ConjunctiveLicenseSet", "Snippet", "DisjunctiveLicenseSet"}[shape]))
	}
	p := g.node(nsDoc+"SPDXRef-p", "Package")
	g.put(doc, "describesPackage", p)
	switch shape {
	case 0:
		g.put(doc, "describesPackage", all[0])
	case 1, 2:
		g.put(p, "hasFile", all[0])
	case 3, 5:
		g.put(p, "licenseConcluded", all[0])
	}
	last := 0 // leads nowhere, back to the first, to itself
	if shape < 5 {
		last = sym.Choice("last", 3)
	}
	for i, from := range all {
		to := []*rdf.Node{nil, all[0], from}[last]
		if i+1 < n {
			to = all[i+1]
		}
		if to == nil {
			continue
		}
		if shape == 3 {
			g.put(from, "member", to)
			g.put(from, "member", resource(nsLIC+"MIT"))
			continue
		}
		// twice, by description and by reference
		for k := 0; k < 2; k++ {
			o := to
			if k == 1 {
				o = resource(to.ID)
			}
			switch shape {
			case 0, 1: // relationships between packages or files
				r := g.node("", "Relationship")
				g.put(from, "relationship", r)
				g.put(r, "relationshipType", resource(full("relationshipType_dependsOn")))
				g.put(r, "relatedSpdxElement", o)
			case 2: // dependencies of files
				g.put(from, "fileDependency", o)
			case 4: // snippets of snippets
				g.put(from, "snippetFromFile", o)
			case 5: // sets that are members twice
				g.put(from, "member", o)
			}
		}
	}
	if shape < 5 && sym.Choice("text", 2) == 1 {
		g.put(all[n-1], "rdfs:comment", literal(sym.String("comment", 6)))
	}
	loadAny22(g.parser(sym.Choice("order", 2)))
}
