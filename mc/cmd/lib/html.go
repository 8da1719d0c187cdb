package main

import (
	"fmt"
	"strings"

	"github.com/clipperhouse/jargon"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"

	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/ref"
)

func init() {
	props["C18"] = c18
	props["C19"] = c19
}

// htmlRef is the reference for HTML: the tokens of the HTML tokenizer that jargon is built on, each verbatim.
func htmlRef(doc string) []ref.Tok {
	var out []ref.Tok
	z := html.NewTokenizer(strings.NewReader(doc))
	raw := atom.Atom(0)
	n := 0
	for {
		tt := z.Next()
		text := string(z.Raw())
		n += len(text)
		switch tt {
		case html.ErrorToken:
			if text != "" {
				out = append(out, ref.Tok{V: text, P: true})
			}
			return out
		case html.TextToken:
			if raw == 0 {
				out = append(out, ref.Tokens(text)...)
			} else {
				out = append(out, ref.Tok{V: text})
			}
		default:
			out = append(out, ref.Tok{V: text, P: true})
			name, _ := z.TagName()
			a := atom.Lookup(name)
			switch {
			case (tt == html.StartTagToken || tt == html.SelfClosingTagToken) && (a == atom.Script || a == atom.Style):
				raw = a
			case tt == html.EndTagToken && a == raw:
				raw = 0
			}
		}
	}
}

var htmlFragments = []string{
	"a b", " ", "<p>", "</p>", "<script>", "</script>", "<style>", "</style>", "<!-- c -->", "<!DOCTYPE html>", "&amp;", "<br/>", "<", ">", "\n",
	"<SCRIPT type=x>", "</SCRIPT >", "<A HREF='x y' b=\"&lt;\">", "<textarea>", "</textarea>", "<title>", "</title>", "<!--", "-->", "<?php x ?>",
	"<![CDATA[x]]>", "</>", "</ p>", "<p a=b", "don't", "\x00", "\r\n", "\r", "&#x27;", "\"", "<plaintext>", "<Style>", "é\xff", "if (a < b) {}", "<noscript>", "<xmp>", "<iframe>", "<p\n  class = 'x'\n>", "&nbsp", "<script src='a'>", "<!---->", "<!>", "<a b=c/>", "</script", "<svg>", "<img src=x>", "<script/>", "<script src=x />", "<style/>",
}

// Names of all elements
var htmlNames = strings.Fields("a abbr acronym address applet area article aside audio b base basefont bdi bdo bgsound big blink blockquote body br button canvas caption center cite code col colgroup data datalist dd del details dfn dialog dir div dl dt em embed fieldset figcaption figure font footer form frame frameset h1 h2 h6 head header hgroup hr html i iframe image img input ins isindex kbd keygen label legend li link listing main map mark marquee math menu menuitem meta meter nav nextid nobr noembed noframes noscript object ol optgroup option output p param picture plaintext portal pre progress q rb rp rt rtc ruby s samp script search section select slot small source spacer span strike strong style sub summary sup svg table tbody td template textarea tfoot th thead time title tr track tt u ul var video wbr xmp x-y foreignObject SCRIPT StYlE PRE TextArea")

// Contents which an element might treat specially
var htmlConts = []string{"\na b", "\n", "\n\n", "\r\nx", " x ", "\tx", "\x00x", "\ufeffx", "a &amp; b", "<b>i</b> j", "<!-- x y --> z", "x < y", "&lt;b&gt;", "\nif (a) {}\n", "<!--", "a]]>b"}

// Attributes which might matter to how an element is treated
var htmlAttrs = []string{
	"type=text/javascript", "type=text/template", "type=text/html", "type=text/x-handlebars-template", "type=application/json", "type=application/ld+json", "type=importmap", "type=module",
	"type=text/plain", "type=text/css", "type=", "type=text/x-template", "type=text/markdown", "type=speculationrules", "type=math/tex", "type=text/ng-template",
	"src=a.js", "src=", "async", "defer=", "nomodule", "language=javascript", "charset=utf-8", "hidden", "translate=no", "lang=fr", "dir=rtl", "contenteditable=true",
	"xml:space=preserve", "aria-hidden=true", "aria-label=x", "class=notranslate", "class=x y", "id=x", "style=display:none", "style=visibility: hidden", "title=x y", "alt=x y", "media=print", "nonce=a",
	"crossorigin", "role=presentation", "data-x=y", "href=#", "href=javascript:x", "http-equiv=refresh", "name=description", "content=x y", "value=x y", "placeholder=x y", "disabled", "inert", "rel=stylesheet", "integrity=x", "scoped", "v-pre", "data-type=text",
}

// htmlAttributes are documents with an attribute, from those above and the literals that are new.
func htmlAttributes(r *core.Run, check func(*core.Ctx, string)) {
	attrs := htmlAttrs
	names := []string{"type", "src", "lang", "class", "id", "hidden", "language", "data-x", "style", "role"}
	novel := core.Atoms(nil, 12)
	for _, a := range novel {
		attrs = append(attrs, a, a+"=x")
		for _, b := range append(append([]string(nil), names...), novel...) {
			attrs = append(attrs, b+"="+a)
		}
	}
	elements := []string{"script", "style", "p", "SCRIPT", "textarea", "template", "noscript", "pre", "title", "code"}
	conts := []string{"a b <b>c</b> d.", "", "{ x: 'y z' }", "a < b && c", "don't", "\n", "<!-- a b -->"}
	r.Explore("attributes", fmt.Sprintf("%d attributes in 5 spellings, on %d elements with %d contents, twice", len(attrs), len(elements), len(conts)), func(c *core.Ctx) {
		at, el, ct := attrs[c.Choose(len(attrs))], elements[c.Choose(len(elements))], conts[c.Choose(len(conts))]
		k, v, val := at, "", false
		if i := strings.Index(at, "="); i >= 0 {
			k, v, val = at[:i], at[i+1:], true
		}
		switch c.Choose(5) {
		case 0:
			if val {
				at = k + "=\"" + v + "\""
			}
		case 1:
			at = strings.ToUpper(k) + " = '" + strings.ToUpper(v) + "'"
		case 2:
			at = "a b='c' " + k + "=" + strings.ReplaceAll(v, " ", "") + " d"
		case 3:
			at = k + "=\" " + v + "; q\" z"
		case 4:
			at = k
		}
		doc := "m n <" + el + " " + at + ">" + ct + "</" + el + "> o p"
		check(c, doc+doc)
	})
}

func htmlLossless(c *core.Ctx, doc string, cuts []int) []ref.Tok {
	got := h.MustDrain(c, jargon.TokenizeHTML(h.NewReader(doc, cuts, len(doc)%2 == 0)), len(doc)+8)
	if g := ref.Text(got); g != doc {
		c.Failf("tokens concatenate to %s", h.Clip(g))
	}
	return got
}

func c18(r *core.Run) {
	chars := core.Atoms([]string{"<", ">", "/", "!", "-", "a", " ", "\"", "=", "&", "?", "'"}, 6)
	n := r.Pick(6, 7)
	r.Explore("characters", fmt.Sprintf("all documents of at most %d of %d characters", n, len(chars)), func(c *core.Ctx) {
		doc := h.Text(c, c.Choose(n+1), chars)
		c.Describe(func() string { return fmt.Sprintf("%q", doc) })
		htmlLossless(c, doc, nil)
	})
	frags := core.Atoms(htmlFragments, 10)
	f := 4
	if len(frags) > len(htmlFragments) && !r.Thorough() {
		f = 3
	}
	r.Explore("fragments", fmt.Sprintf("all documents of at most %d of %d fragments", f, len(frags)), func(c *core.Ctx) {
		doc := h.Text(c, c.Choose(f+1), frags)
		c.Describe(func() string { return fmt.Sprintf("%q", doc) })
		htmlLossless(c, doc, nil)
	})
	few := []string{"a b", "<p>", "<script>", "</script>", "<style>", "</style>", "<!-- c -->", "&amp;", "<", "</p>", "<textarea>", "</textarea>", "<!--", "-->", "\x00", "\r\n"}
	f5 := r.Pick(5, 6)
	r.Explore("longer", fmt.Sprintf("all documents of %d of %d fragments", f5, len(few)), func(c *core.Ctx) {
		doc := h.Text(c, f5, few)
		c.Describe(func() string { return fmt.Sprintf("%q", doc) })
		htmlLossless(c, doc, nil)
	})
	kinds := readerKinds()
	docs := []string{"", "a b", "<p CLASS='x  y'>don't &amp; <br/><!-- c --><script>x  y</script>z", "a<scr", "<STYLE>b", "\x00<a\x00b>\r\n", strings.Repeat("<p id=1>some  words</p>\r\n<script> y </script>", 3000), strings.Repeat("words,  and ", 9000) + "<B>", "<p " + strings.Repeat("x='y'  ", 9000) + ">"}
	r.Explore("reader kinds", fmt.Sprintf("%d documents from %d kinds of readers of the standard library", len(docs), len(kinds)), func(c *core.Ctx) {
		doc := docs[c.Choose(len(docs))]
		k := kinds[c.Choose(len(kinds))]
		c.Describe(func() string { return fmt.Sprintf("%s from %s", h.Clip(doc), k.name) })
		rd, done := k.open(doc)
		defer done()
		got, err := jargon.TokenizeHTML(rd).String()
		if err != nil || got != doc {
			c.Failf("%v, %s", err, h.Clip(got))
		}
		c.Step(1)
	})
	r.Explore("chunkings", "all documents of at most 2 fragments; split at every byte, and in single bytes", func(c *core.Ctx) {
		doc := h.Text(c, c.Choose(3), frags)
		var cuts []int
		k := c.Choose(len(doc) + 1)
		if k == 0 {
			cuts = ones(len(doc))
		} else if k < len(doc) {
			cuts = []int{k}
		}
		c.Describe(func() string { return fmt.Sprintf("%q in reads ending at %v", doc, cuts) })
		got := htmlLossless(c, doc, cuts)
		h.Same(c, got, h.MustDrain(c, jargon.TokenizeHTML(strings.NewReader(doc)), len(doc)+8))
	})
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		s := string(x)
		c.Describe(func() string { return fmt.Sprintf("contexts of %U", x) })
		htmlLossless(c, s+"<a "+s+"='"+s+"'>"+s+"<!--"+s+"--><"+s+">&"+s+";<script>"+s+"</script></"+s+">", nil)
	})
	r.Explore("bytes", "every two bytes in text, tag name, attribute, comment and script", func(c *core.Ctx) {
		s := string([]byte{byte(c.Choose(256)), byte(c.Choose(256))})
		c.Describe(func() string { return fmt.Sprintf("%q", s) })
		htmlLossless(c, s, nil)
		htmlLossless(c, "<a "+s+"='"+s+"'>"+s+"<!--"+s+"-->", nil)
		htmlLossless(c, "<"+s+">"+s, nil)
		htmlLossless(c, "<script>"+s+"</script>"+s, nil)
		htmlLossless(c, "</"+s+">&"+s+";", nil)
	})
	r.Explore("elements", fmt.Sprintf("%d elements by name, %d contents, closed or not, after text or another element, and twice", len(htmlNames), len(htmlConts)), func(c *core.Ctx) {
		nm, ct := htmlNames[c.Choose(len(htmlNames))], htmlConts[c.Choose(len(htmlConts))]
		doc := []string{"", "m\n", "<p>", "<script>x</script>"}[c.Choose(4)] + "<" + nm + []string{"", " a='b'", "/"}[c.Choose(3)] + ">" + ct
		if c.Bool() {
			doc += "</" + nm + ">"
		}
		doc += []string{"", "\nx y", doc}[c.Choose(3)]
		c.Describe(func() string { return fmt.Sprintf("%q", doc) })
		htmlLossless(c, doc, nil)
	})
	htmlAttributes(r, func(c *core.Ctx, doc string) {
		c.Describe(func() string { return fmt.Sprintf("%q", doc) })
		htmlLossless(c, doc, nil)
	})
	entities := []string{"amp", "lt", "gt", "quot", "apos", "nbsp", "copy", "eacute", "AMP", "amp;", "lt;", "gt;", "quot;", "apos;", "nbsp;", "eacute;", "#65", "#65;", "#x41", "#x41;", "#X41;", "#0;", "#128;", "#xD800;", "#x110000;", "NotEqualTilde;", "notit;", "acE;", "fjlig;", "xyz;", ";", "#", "#;", "#x;"}
	places := []string{"%s", "a %sb", "<p>%s</p>", "<a href=\"%s\">x</a>", "<a href=%s>", "<!--%s-->", "<title>%s</title>", "<textarea>%s</textarea>", "<script>%s</script>", "<style>%s</style>"}
	r.Explore("entities", fmt.Sprintf("%d entity spellings in %d places", len(entities), len(places)), func(c *core.Ctx) {
		doc := strings.ReplaceAll(places[c.Choose(len(places))], "%s", "&"+entities[c.Choose(len(entities))])
		c.Describe(func() string { return doc })
		htmlLossless(c, doc, nil)
	})
	sizes := core.Sizes(1<<20, core.Around(512, 1024, 4096, 8192, 65536, 200000)...)
	holes := []string{"<p>%s</p>", "<p class='%s'>x", "<!--%s-->y", "<script>%s</script> z", "%s<b>", "<title>%s</title>q", "<p %s>x", "<%s>y", "<textarea>%s"}
	fills := []string{"ab ", "x", "é. ", "&amp; ", "\r\n"}
	r.Explore("long", fmt.Sprintf("%d places filled with %v bytes of %d kinds", len(holes), sizes, len(fills)), func(c *core.Ctx) {
		f := fills[c.Choose(len(fills))]
		n := sizes[c.Choose(len(sizes))]
		hole := holes[c.Choose(len(holes))]
		if f == "x" && n > 65000 && (strings.HasPrefix(hole, "<p>%") || strings.HasPrefix(hole, "%") || strings.HasPrefix(hole, "<ti") || strings.HasPrefix(hole, "<te")) {
			c.Prune() // a word over the limit
		}
		doc := "a " + strings.ReplaceAll(hole, "%s", strings.Repeat(f, n/len(f)+1)) + "<i>t</i>"
		c.Describe(func() string { return h.Clip(doc) })
		htmlLossless(c, doc, nil)
	})
	huge := core.Huge(1<<20, 5<<20+1, 17<<20+1)
	r.ExploreSerial("huge", fmt.Sprintf("%d places filled with %v bytes of long words", len(holes), huge), func(c *core.Ctx) {
		hole := holes[c.Choose(len(holes))]
		n := huge[c.Choose(len(huge))]
		c.Describe(func() string { return fmt.Sprintf("%s filled with %d bytes", hole, n) })
		c.Chosen()
		htmlLossless(c, strings.ReplaceAll(hole, "%s", h.LongWords(n)), nil)
	})
	many := core.Sizes(1<<17, 10, 100, 255, 256, 1000, 4096, 70000)
	r.Explore("many elements", fmt.Sprintf("%v elements of 6 kinds, then text", many), func(c *core.Ctx) {
		n := many[c.Choose(len(many))]
		e := []string{"<p>a</p>", "<script>a</script>", "<br>", "<!--x-->", "<style></style>b", "<div><b>"}[c.Choose(6)]
		doc := strings.Repeat(e, n) + "the end<p"
		c.Describe(func() string { return fmt.Sprintf("%d of %s", n, e) })
		htmlLossless(c, doc, nil)
	})
}

func c19(r *core.Run) {
	check := func(c *core.Ctx, doc string) {
		c.Describe(func() string { return h.Clip(doc) })
		got := h.MustDrain(c, jargon.TokenizeHTML(strings.NewReader(doc)), len(doc)+8)
		h.Same(c, got, htmlRef(doc))
	}
	frags := core.Atoms([]string{
		"a b", " ", "<p>", "</p>", "<script>", "</script>", "<style>", "</style>", "<!-- c -->", "<!DOCTYPE html>", "&amp;", "<br/>", "\n",
		"<SCRIPT type=x>", "</SCRIPT >", "<A HREF='x y' b=\"&lt;\">", "<textarea>", "</textarea>", "<title>", "</title>", "don't", "\r\n", "&#x27;",
		"<STYLE>", "é.", "x < y", "<noscript>", "</noscript>", "<p\n  class = 'x'\n>", "<a b=c/>", "<.>", "... ", "<svg>", "<img src=x>", "<scripty>", "<styled>", "</b>", "12,000.5", "<xmp>", "<iframe>", "<!--", "<p a=b", "</script", "<script/>", "<style src=x />",
	}, 10)
	n := 4
	if len(frags) > 45 && !r.Thorough() {
		n = 3
	}
	r.Explore("documents", fmt.Sprintf("all documents of at most %d of %d fragments", n, len(frags)), func(c *core.Ctx) {
		check(c, h.Text(c, c.Choose(n+1), frags))
	})
	few := core.Atoms([]string{"a b", "<p>", "<script>", "</script>", "<style>", "</style>", "<!-- c -->", " ", "</p>", "<title>", "</title>", "<br/>", "don't.", "<noscript>"}, 6)
	m := r.Pick(5, 6)
	r.Explore("nesting", fmt.Sprintf("all documents of %d of %d fragments", m, len(few)), func(c *core.Ctx) {
		check(c, h.Text(c, m, few))
	})
	// Elements by name: only script and style are kept whole
	names := []string{"a", "p", "script", "style", "SCRIPT", "StYlE", "title", "textarea", "noscript", "iframe", "xmp", "noembed", "noframes", "pre", "svg", "math", "template", "scripts", "styles", "script-x", "code", "head", "body", "option", "div", "style1", "x:script", "object", "button", "h1"}
	attrs := []string{"", " a", " type='x'", " a=b c", "\n", "  ", "/", " a /", " a=b/"}
	conts := []string{"a b", " ", "", ".", "don't &amp; x", "<b>i</b> j", "a\nb", "if (a < b) { c(); }", "<!-- x y --> z", "12", "é 中文"}
	r.Explore("elements", fmt.Sprintf("%d elements, %d forms of attributes, %d contents, text before and after, twice in a row", len(names), len(attrs), len(conts)), func(c *core.Ctx) {
		nm, at, ct := names[c.Choose(len(names))], attrs[c.Choose(len(attrs))], conts[c.Choose(len(conts))]
		tail := []string{"", "x y", "<p>x y", "<script>q r</script>s t"}[c.Choose(4)]
		doc := "m n <" + nm + at + ">" + ct + "</" + nm + ">" + tail
		check(c, doc+doc)
	})
	htmlAttributes(r, check)
	r.Explore("all elements", fmt.Sprintf("%d elements by name, %d contents, closed or not, after text or another element, and twice", len(htmlNames), len(htmlConts)), func(c *core.Ctx) {
		nm, ct := htmlNames[c.Choose(len(htmlNames))], htmlConts[c.Choose(len(htmlConts))]
		doc := []string{"", "m\n", "<p>", "<script>x</script>"}[c.Choose(4)] + "<" + nm + []string{"", " a='b'", "/"}[c.Choose(3)] + ">" + ct
		if c.Bool() {
			doc += "</" + nm + ">"
		}
		check(c, doc+[]string{"", "\nx y", doc}[c.Choose(3)])
	})
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		s := string(x)
		if x == '<' || x == '&' || x == '>' {
			c.Prune()
		}
		check(c, "a"+s+"b<p>"+s+" c"+s+"</p><script>"+s+"</script>"+s+"d<style>"+s+" </style>1"+s)
	})
	texts := core.Atoms(textAtoms, 10)
	r.Explore("text nodes", fmt.Sprintf("3 of %d atoms as text before, between and after elements", len(texts)), func(c *core.Ctx) {
		t := h.Text(c, 3, texts)
		check(c, t+"<p>"+t+"<script>"+t+"</script>"+t)
	})
	sizes := core.Sizes(1<<19, core.Around(16, 100, 512, 1024, 4096, 8192, 65536, 200000)...)
	r.Explore("long", fmt.Sprintf("text, script, style, tag and comment of %v bytes", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		f := []string{"ab c. ", "x", " ", "\n"}[c.Choose(4)]
		t := strings.Repeat(f, n/len(f)+1)
		hole := []string{"<p>%</p>y z", "<script>%</script>y z", "<style>%</style>y z", "<p a='%'>y z", "<!--%-->y z", "%"}[c.Choose(6)]
		if (f == "x" || f == " ") && n > 65000 && (hole == "%" || strings.HasPrefix(hole, "<p>")) {
			c.Prune()
		}
		check(c, "a b"+strings.ReplaceAll(hole, "%", t))
	})
	many := core.Sizes(1<<16, 2, 3, 10, 100, 256, 1000, 20000)
	r.Explore("many elements", fmt.Sprintf("%v elements of 5 kinds, then text and a script", many), func(c *core.Ctx) {
		n := many[c.Choose(len(many))]
		e := []string{"<p>a b</p>", "<script>a b</script>", "<br>", "<!--x y-->", "<style>c d</style>b c"}[c.Choose(5)]
		check(c, strings.Repeat(e, n)+"the end<script>x y</script> z<p>a</p>")
	})
}
