package zzvh

import (
	vrt "github.com/webability-go/xcore/v2/zzvrt"

	xcore "github.com/webability-go/xcore/v2"
)

// C30_name: files of unusual names.
func C30_name() {
	n := []string{"A b.txt", " a", "a ", "a$b", "${a}.t", "%41", "~", "a~", "a#b", "a?b", "a&b=c", "*", "[a]", "a\\b", "é世", "\xff", "a:b", "-", "...", ".a", "a.", "UPPER.Template", "a'b\"c", "a;b|c", "a\tb", "{{a}}", "noextension"}
	name := n[vrt.Choose("name", len(n))]
	v := vrt.Str("v", 0, 1, 'a', 'z')
	switch vrt.Choose("what", 3) {
	case 0:
		p := vrt.File(name, "A"+v)
		t, err := xcore.NewXTemplateFromFile(p)
		vrt.Assert(err == nil && t != nil && t.Execute(nil) == "A"+v, "the template of the file and of its content differ")
		vrt.Assert(t.LoadFile(p) == nil && t.Execute(nil) == "A"+v, "the template of the file and of its content differ")
	case 1:
		p := vrt.File(name, "k="+v)
		l, err := xcore.NewXLanguageFromFile(p)
		vrt.Assert(err == nil && l != nil && l.Get("k") == v, "the table of the file and of its content differ")
		vrt.Assert(l.LoadFile(p) == nil && l.Get("k") == v, "the table of the file and of its content differ")
	case 2:
		p := vrt.File(name, `<language id="n" lang="en"><entry id="k">`+v+`</entry></language>`)
		l, err := xcore.NewXLanguageFromXMLFile(p)
		vrt.Assert(err == nil && l != nil && l.Get("k") == v, "the table of the file and of its content differ")
		vrt.Assert(l.LoadXMLFile(p) == nil && l.Get("k") == v, "the table of the file and of its content differ")
	}
	vrt.Observe(name)
}
