SEEDS = []
def seed(id, prop, edits, needs, what, test, imports=(), module="v2", race=False):
    SEEDS.append(dict(id=id, property=prop, needs=needs, what=what, test=test, imports=list(imports), module=module, race=race,
        edits=[dict(file=e[0], old=e[1], new=e[2], **({"nth": e[3]} if len(e) > 3 else {})) for e in edits]))

C = "v2/xcache.go"
seed("b01", "C05", [(C, "			if x.ctime.Add(c.Expire).Before(time.Now()) {\n				if LOG {\n					log.Println(\"Cache timeout Expired: \" + k)", "			if x.rtime.Add(c.Expire).Before(time.Now()) {\n				if LOG {\n					log.Println(\"Cache timeout Expired: \" + k)")],
 "an entry read after it was stored and older than Expire when a clean runs",
 "cleaning measures the age from the last reading, so expired entries stay and Clean's count is wrong", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 0, 60*time.Millisecond)
	c.Set("a", 1)
	time.Sleep(40 * time.Millisecond)
	c.Get("a")
	time.Sleep(40 * time.Millisecond)
	if n := c.Clean(0); n != 1 || c.Count() != 0 {
		t.Fatal("expired entry kept", n, c.Count())
	}
}''', ["time"])
seed("b02", "C05", [(C, "			if i == len(c.pile)-1 {\n				c.pile = c.pile[:i]", "			if i == len(c.pile)-1 || i == 0 && len(c.pile) == 2 {\n				c.pile = c.pile[:i]")],
 "exactly two entries, the older one read or overwritten",
 "the recency order loses the other key, so the most recently used entries are evicted (or the clean panics)", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 0, 0)
	c.Set("a", 1)
	c.Set("b", 2)
	c.Get("a")
	c.Clean(50)
	if v, _ := c.Get("a"); v != 1 {
		t.Fatal("the most recently used entry was cleaned")
	}
}''')
seed("b03", "C07", [("v2/xdataset.go", "	data, ok := (*d)[key]\n	if ok {", "	data, ok := (*d)[key]\n	if ok && len(key) > 0 {")],
 "the empty key", "a value stored under the empty key is reported absent", '''
func TestZZDemo(t *testing.T) {
	d := &XDataset{}
	d.Set("", 1)
	if _, ok := d.Get(""); !ok {
		t.Fatal("value of the empty key is reported absent")
	}
}''')
seed("b04", "C02", [(C, "	_, ok := c.items[key]\n	c.items[key] = &XCacheEntry{", "	old, ok := c.items[key]\n	if ok && old.data == nil && indata == nil {\n		return\n	}\n	c.items[key] = &XCacheEntry{")],
 "nil stored twice under one key with time passing in between", "Set does not renew the creation date of an entry", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 0, 60*time.Millisecond)
	c.Set("a", nil)
	time.Sleep(40 * time.Millisecond)
	c.Set("a", nil)
	time.Sleep(40 * time.Millisecond)
	if _, inv := c.Get("a"); inv {
		t.Fatal("entry expired too early")
	}
}''', ["time"])
seed("b05", "C02", [(C, "	_, ok := c.items[key]\n	if ok {\n		c.items[key].ttl = duration", "	_, ok := c.items[key]\n	if ok && duration > 0 {\n		c.items[key].ttl = duration")],
 "SetTTL with 0 (or a negative duration) on an entry that has a TTL", "a TTL can not be taken back: the entry expires although its limit is 0", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 0, 0)
	c.Set("a", 1)
	c.SetTTL("a", time.Millisecond)
	c.SetTTL("a", 0)
	time.Sleep(20 * time.Millisecond)
	if v, _ := c.Get("a"); v != 1 {
		t.Fatal("entry without TTL expired")
	}
}''', ["time"])
D, K, KT, DT, L, X = "v2/xdataset.go", "v2/xdatasetcollection.go", "v2/xdatasetcollectionts.go", "v2/xdatasetts.go", "v2/xlanguage.go", "v2/xtemplate.go"
seed("b06", "C08", [(D, "			return ds.Get(strings.Join(xid[2:], \">\"))", "			return ds.Get(xid[len(xid)-1])")],
 "a path that continues by two or more segments below a record of a collection", "the middle of the path is skipped, so another value (or none) is found", '''
func TestZZDemo(t *testing.T) {
	d := &XDataset{"c": &XDatasetCollection{&XDataset{"v": "wrong", "s": &XDataset{"v": "right"}}}}
	if v, _ := d.Get("c>0>s>v"); v != "right" {
		t.Fatal("path resolved to", v)
	}
}''')
seed("b07", "C09", [(D, "		if val2, ok2 := val.(uint32); ok2 {\n			return int(val2), true", "		if val2, ok2 := val.(uint32); ok2 {\n			return int(int32(val2)), true")],
 "a uint32 from 2^31 on", "GetInt gives a negative number", '''
func TestZZDemo(t *testing.T) {
	d := &XDataset{"a": uint32(3000000000)}
	if v, ok := d.GetInt("a"); v != 3000000000 || !ok {
		t.Fatal("GetInt of 3000000000 is", v)
	}
}''')
seed("b08", "C14", [(DT, "	ds.mutex.Lock()\n	ds.data.Del(key)\n	ds.mutex.Unlock()", "	ds.mutex.RLock()\n	_, ok := ds.data.Get(key)\n	ds.mutex.RUnlock()\n	if ok {\n		ds.data.Del(key)\n	}")],
 "Del of a present key while another goroutine uses the dataset", "the map is changed without the lock: data race", '''
func TestZZDemo(t *testing.T) {
	d := NewXDatasetTS(&XDataset{})
	done := make(chan bool)
	for g := 0; g < 2; g++ {
		go func() {
			for i := 0; i < 2000; i++ {
				d.Set("a", i)
				d.Del("a")
			}
			done <- true
		}()
	}
	<-done
	<-done
}''', race=True)
seed("b09", "C17", [(L, "		if len(line) == 0 || line[0] == '#' || line[0] == ';' || posequal < 0 {", "		if len(line) == 0 || strings.ContainsAny(line[:1], \"#;\") || posequal < 0 || strings.HasPrefix(line, \"//\") {")],
 "a key that begins with two slashes", "such lines are taken for comments", '''
func TestZZDemo(t *testing.T) {
	l, err := NewXLanguageFromString("//host=h\\n")
	if err != nil || l.Get("//host") != "h" {
		t.Fatal("entry lost")
	}
}''')
seed("b10", "C19", [(L, "		l.entries[e.ID] = e.Entry\n", "		if _, ok := l.entries[e.ID]; ok && len(e.Entry) == 0 {\n			continue\n		}\n		l.entries[e.ID] = e.Entry\n")],
 "an empty entry loaded over an existing one, or repeated in a document", "the old text survives the load", '''
func TestZZDemo(t *testing.T) {
	l := NewXLanguage("n", language.English)
	l.Set("a", "old")
	if err := l.LoadXMLString("<language id=\\"n\\" lang=\\"en\\"><entry id=\\"a\\"></entry></language>"); err != nil || l.Get("a") != "" {
		t.Fatal("entry not replaced:", l.Get("a"))
	}
}''', ["golang.org/x/text/language"])
seed("b11", "C21", [(X, "		if pointer != x[0] {\n", "		if pointer != x[0] && data[pointer:x[0]] != \"\\t\" {\n")],
 "a single tab between two meta elements", "it is not output", '''
func TestZZDemo(t *testing.T) {
	x, _ := NewXTemplateFromString("a{{f}}\\t{{f}}c")
	if s := x.Execute(&XDataset{"f": 1}); s != "a1\\t1c" {
		t.Fatal(s)
	}
}''')
seed("b12", "C25", [(X, "							if tmp == nil && i%2 == 0 {", "							if tmp == nil && i%2 == 0 && i < cl.Count()-1 {")],
 "an odd number of records, .even declared and .last not", "the last record is not rendered with .even", '''
func TestZZDemo(t *testing.T) {
	x, _ := NewXTemplateFromString("@@c@@[[c]]b[[]][[c.even]]e[[]]")
	if s := x.Execute(&XDataset{"c": &XDatasetCollection{&XDataset{}, &XDataset{}, &XDataset{}}}); s != "ebe" {
		t.Fatal(s)
	}
}''')
seed("b13", "C27", [(X, "				vals := strings.Split(actualtemplate.Name, \"|\")\n", "				vals := strings.SplitN(actualtemplate.Name, \"|\", 4)\n")],
 "a sub template declared with five or more names", "the fourth and later names do not designate it", '''
func TestZZDemo(t *testing.T) {
	x, _ := NewXTemplateFromString("&&d&&&&e&&[[a|b|c|d|e]]X[[]]")
	if s := x.Execute(&XDataset{}); s != "XX" {
		t.Fatal(s)
	}
}''')
C1, D1, L1, X1 = "xcache.go", "xdataset.go", "xlanguage.go", "xtemplate.go"
seed("b14", "C31", [(C1, "	c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n", "	if old, exists := c.items[key]; exists && old.data == nil {\n		old.data = indata\n	} else {\n		c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	}\n")],
 "a nil value overwritten later, with Expire", "the age of the entry is not restarted by Set", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 0, 60*time.Millisecond)
	c.Set("a", nil)
	time.Sleep(40 * time.Millisecond)
	c.Set("a", 1)
	time.Sleep(40 * time.Millisecond)
	if v, _ := c.Get("a"); v != 1 {
		t.Fatal("entry expired too early")
	}
}''', ["time"], module="v1")
seed("b15", "C34", [(D1, "		if val2, ok2 := val.(float32); ok2 {\n			return val2 != 0, true", "		if val2, ok2 := val.(float32); ok2 {\n			return int(val2) != 0, true")],
 "a float32 between -1 and 1 other than 0", "GetBool says false", '''
func TestZZDemo(t *testing.T) {
	d := &XDataset{"a": float32(0.5)}
	if v, ok := d.GetBool("a"); !v || !ok {
		t.Fatal("0.5 is false")
	}
}''', module="v1")
seed("b16", "C36", [(L1, "		posequal := strings.Index(line, \"=\")\n", "		posequal := strings.Index(line, \" = \") + 1\n		if posequal == 0 {\n			posequal = strings.Index(line, \"=\")\n		}\n")],
 "a value that contains an equal sign between blanks after an earlier =", "the line is cut at the later equal sign", '''
func TestZZDemo(t *testing.T) {
	l, _ := NewXLanguageFromString("a=1 = 2")
	if l.Get("a") != "1 = 2" {
		t.Fatal(l.Get("a"))
	}
}''', module="v1")
seed("b17", "C38", [(X1, "							if tmp == nil && i == 0 {\n								tmp = t.GetTemplate(subtemplateid + \".first\")\n							}\n							if tmp == nil && i == cl.Count()-1 {\n								tmp = t.GetTemplate(subtemplateid + \".last\")\n							}\n", "							if tmp == nil && i == cl.Count()-1 {\n								tmp = t.GetTemplate(subtemplateid + \".last\")\n							}\n							if tmp == nil && i == 0 {\n								tmp = t.GetTemplate(subtemplateid + \".first\")\n							}\n")],
 "a loop over a single record with both .first and .last", ".last is used instead of .first", '''
func TestZZDemo(t *testing.T) {
	x, _ := NewXTemplateFromString("@@c@@[[c]]b[[]][[c.first]]f[[]][[c.last]]l[[]]")
	if s := x.Execute(&XDataset{"c": &XDatasetCollection{&XDataset{}}}); s != "f" {
		t.Fatal(s)
	}
}''', module="v1")
seed("b18", "C39", [(X1, "	t.SubTemplates[name] = tmpl\n", "	if _, ok := t.SubTemplates[name]; !ok {\n		t.SubTemplates[name] = tmpl\n	}\n")],
 "AddTemplate under a name that exists already", "the old sub template stays", '''
func TestZZDemo(t *testing.T) {
	x, _ := NewXTemplateFromString("&&a&&[[a]]old[[]]")
	y, _ := NewXTemplateFromString("new")
	x.AddTemplate("a", y)
	if s := x.Execute(&XDataset{}); s != "new" {
		t.Fatal(s)
	}
}''', module="v1")
seed("b19", "C01", [(C, "	x := len(c.items)\n	return x", "	x := 0\n	for _, e := range c.items {\n		if e.data != nil {\n			x++\n		}\n	}\n	return x")],
 "nil stored in the cache", "Count does not count entries whose value is nil", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 0, 0)
	c.Set("a", nil)
	if c.Count() != 1 {
		t.Fatal("Count is", c.Count())
	}
}''')
seed("b20", "C03", [(C, "		if c.Validator != nil {\n			valid, same", "		if c.Validator != nil && time.Since(x.rtime) > time.Second {\n			valid, same")],
 "two readings of an entry within a second, between which it became invalid", "the Validator is not asked and an invalid entry is served", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 0, 0)
	c.Validator = func(string, time.Time) bool { return false }
	c.Set("a", 1)
	if v, inv := c.Get("a"); v != nil || !inv {
		t.Fatal("a rejected entry is served")
	}
}''', ["time"])
seed("b21", "C04", [(C, "	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {", "	if c.Maxitems > 1 && len(c.items) >= c.Maxitems {")],
 "a cache limited to one entry", "the limit is not respected", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 1, 0)
	c.Set("a", 1)
	c.Set("b", 1)
	if c.Count() > 1 {
		t.Fatal("Count is", c.Count())
	}
}''')
seed("b22", "C06", [(C, "	_, ok := c.items[key]\n	if ok {\n		c.items[key].ttl = duration", "	x, ok := c.items[key]\n	if ok {\n		c.mutex.Unlock()\n		x.ttl = duration\n		c.mutex.Lock()")],
 "SetTTL while another goroutine reads the entry", "the TTL is written without the lock: data race", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 0, 0)
	c.Set("a", 1)
	done := make(chan bool)
	go func() {
		for i := 0; i < 3000; i++ {
			c.SetTTL("a", time.Hour)
		}
		done <- true
	}()
	for i := 0; i < 3000; i++ {
		c.Get("a")
	}
	<-done
}''', ["time"], race=True)
seed("b23", "C10", [(K, "		*cloned = append(*cloned, val.Clone())", "		if ds, ok := val.(*XDataset); ok && len(*ds) == 0 {\n			*cloned = append(*cloned, val)\n			continue\n		}\n		*cloned = append(*cloned, val.Clone())")],
 "a collection with an empty record", "the clone shares the empty record with the original", '''
func TestZZDemo(t *testing.T) {
	r := &XDataset{}
	c := (&XDatasetCollection{r}).Clone()
	r.Set("a", 1)
	ds, _ := c.Get(0)
	if _, ok := ds.Get("a"); ok {
		t.Fatal("the clone changed")
	}
}''')
seed("b24", "C11", [(K, "	*d = append(*d, data)\n", "	if n := len(*d); n > 0 && (*d)[n-1] == data {\n		return\n	}\n	*d = append(*d, data)\n")],
 "the record that is last pushed again", "it is not added", '''
func TestZZDemo(t *testing.T) {
	c := &XDatasetCollection{}
	r := &XDataset{}
	c.Push(r)
	c.Push(r)
	if c.Count() != 2 {
		t.Fatal("Count is", c.Count())
	}
}''')
seed("b25", "C12", [(K, "		val, ok := (*d)[i].Get(key)\n		if ok {", "		val, ok := (*d)[i].Get(key)\n		if ok && (val != nil || i == 0) {")],
 "nil in a later record over a value in an earlier one", "the earlier record wins", '''
func TestZZDemo(t *testing.T) {
	c := &XDatasetCollection{&XDataset{"a": 1}, &XDataset{"a": nil}}
	if v, ok := c.GetData("a"); v != nil || !ok {
		t.Fatal("GetData is", v, ok)
	}
}''')
seed("b26", "C13", [(KT, "	if index < 0 || index >= len(dc.data) {", "	if index < 0 {\n		index += len(dc.data)\n	}\n	if index < 0 || index >= len(dc.data) {")],
 "a negative index into a thread safe collection", "it counts from the end, where the plain collection has no record", '''
func TestZZDemo(t *testing.T) {
	c := &XDatasetCollectionTS{}
	c.Push(&XDataset{})
	if _, ok := c.Get(-1); ok {
		t.Fatal("there is a record -1")
	}
}''')
seed("b27", "C15", [(D, "		default:\n			ds.Set(i, v)", "		case string:\n			ds.Set(i, strings.TrimSpace(v.(string)))\n		default:\n			ds.Set(i, v)")],
 "a text with white space at an end", "it is trimmed", '''
func TestZZDemo(t *testing.T) {
	d := NewXDataset(map[string]interface{}{"a": " x "})
	if v, _ := d.Get("a"); v != " x " {
		t.Fatalf("%q", v)
	}
}''')
seed("b28", "C16", [(D, "	sort.Strings(sdata) // Lets be sure the print is always the same presentation\n	return \"#xcore", "	if len(sdata) > 12 { // too long to be read\n		return \"#xcore.XDataset{\" + strings.Join(sdata, \" \") + \"}\"\n	}\n	sort.Strings(sdata) // Lets be sure the print is always the same presentation\n	return \"#xcore")],
 "a dataset of more than twelve keys", "the order of the text is not always the same", '''
func TestZZDemo(t *testing.T) {
	first := ""
	for i := 0; i < 2000; i++ {
		d := &XDataset{}
		for c := 'a'; c < 'o'; c++ {
			d.Set(string(c), 1)
		}
		s := d.GoString()
		if first == "" {
			first = s
		}
		if s != first {
			t.Fatal(s, first)
		}
	}
}''')
seed("b29", "C18", [(L, "	delete(l.entries, entry)\n	delete(l.status, entry)", "	if _, ok := l.entries[entry]; !ok {\n		return\n	}\n	delete(l.entries, entry)\n	delete(l.status, entry)")],
 "Del of a name that has a status and no entry", "the status stays", '''
func TestZZDemo(t *testing.T) {
	l := NewXLanguage("n", language.English)
	l.SetStatus("a", "ok")
	l.Del("a")
	if s := l.GetStatus("a"); s != "" {
		t.Fatal("status is", s)
	}
}''', ["golang.org/x/text/language"])
seed("b30", "C20", [(L, "		l.mutex.Lock()\n		l.entries[key] = value\n		l.mutex.Unlock()", "		if l.Get(key) == value {\n			continue\n		}\n		l.mutex.RLock()\n		l.entries[key] = value\n		l.mutex.RUnlock()")],
 "LoadString while another goroutine reads the table", "the map is written under a read lock: data race", '''
func TestZZDemo(t *testing.T) {
	l := NewXLanguage("n", language.English)
	done := make(chan bool)
	go func() {
		for i := 0; i < 2000; i++ {
			l.LoadString("a=1\\na=2\\n")
		}
		done <- true
	}()
	for i := 0; i < 2000; i++ {
		l.Get("a")
	}
	<-done
}''', ["golang.org/x/text/language"], race=True)
seed("b31", "C22", [(X, "			if last < 0 {\n				return", "			if last < 0 && i == len(compiled)-1 && i > 2 {\n				compiled[i].ParamType = MetaUnused\n				continue\n			}\n			if last < 0 {\n				return")],
 "an end mark too many at the very end of the text, after at least three elements", "it is accepted", '''
func TestZZDemo(t *testing.T) {
	if _, err := NewXTemplateFromString("{{a}}b{{c}}[[]]"); err == nil {
		t.Fatal("no error")
	}
}''')
seed("b32", "C23", [(X, "				d, _ := datacol.GetDataString(v.Data)\n				injected = append(injected, d)", "				d, ok := datacol.GetDataString(v.Data)\n				if !ok && language != nil {\n					d = language.Get(v.Data)\n				}\n				injected = append(injected, d)")],
 "a field without value whose name is an entry of the language table", "the entry is output", '''
func TestZZDemo(t *testing.T) {
	l := NewXLanguage("n", language.English)
	l.Set("f", "entry")
	x, _ := NewXTemplateFromString("<{{f}}>")
	if s := x.Execute(&XDataset{"#": l}); s != "<>" {
		t.Fatal(s)
	}
}''', ["golang.org/x/text/language"])
seed("b33", "C24", [(X, "					if withds {\n						datacol.Pop()\n					}\n", "					if withds && substr != \"\" {\n						datacol.Pop()\n					}\n")],
 "a reference with a dataset whose sub template renders nothing", "the dataset stays the current level", '''
func TestZZDemo(t *testing.T) {
	x, _ := NewXTemplateFromString("&&t:d&&{{f}}[[t]][[]]")
	if s := x.Execute(&XDataset{"f": "outer", "d": &XDataset{"f": "inner"}}); s != "outer" {
		t.Fatal(s)
	}
}''')
seed("b34", "C26", [(X, "					svalue = fmt.Sprint(value)\n", "					svalue = fmt.Sprint(value)\n					if b, isBool := value.(bool); isBool && !b {\n						svalue = \"\"\n					}\n")],
 "a condition on false", "neither the .false variant nor the base is output", '''
func TestZZDemo(t *testing.T) {
	x, _ := NewXTemplateFromString("??f??[[f]]base[[]][[f.false]]no[[]]")
	if s := x.Execute(&XDataset{"f": false}); s != "no" {
		t.Fatal(s)
	}
}''')
seed("b35", "C28", [(X, "	cloned.Father = t.Father\n", "	cloned.Father = t.Father\n	if cloned.Father != nil && len(cloned.Father.SubTemplates) == 1 {\n		cloned.Father.SubTemplates[t.Name] = cloned\n	}\n")],
 "a clone of the only sub template of a template", "the clone replaces the original in its father", '''
func TestZZDemo(t *testing.T) {
	x, _ := NewXTemplateFromString("&&t&&[[t]]a[[]]")
	c := x.GetTemplate("t").Clone()
	c.LoadString("changed")
	if s := x.Execute(&XDataset{}); s != "a" {
		t.Fatal(s)
	}
}''')
seed("b36", "C29", [(X, "	// return the page string\n	return strings.Join(injected, \"\")", "	// return the page string\n	buf := buffers.Get().(*bytes.Buffer)\n	for _, s := range injected {\n		buf.WriteString(s)\n	}\n	page := buf.String()\n	if len(page) > 0 {\n		buf.Reset()\n		buffers.Put(buf)\n	}\n	if len(page) > 4000 {\n		buf.WriteString(page[:1])\n	}\n	return page"), (X, "// MetaString and other consts:", "var buffers = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}\n\n// MetaString and other consts:"), (X, "	//	\"sync\"", "	\"bytes\"\n	\"sync\"")],
 "an execution after one that gave more than 4000 bytes", "a left over byte of a pooled buffer begins the page", '''
func TestZZDemo(t *testing.T) {
	text := strings.Repeat("x", 4001)
	x, _ := NewXTemplateFromString(text)
	for i := 0; i < 100; i++ {
		if s := x.Execute(&XDataset{}); s != text {
			t.Fatal(i, s)
		}
	}
}''', ["strings"])
seed("b37", "C30", [(L, "	return l.LoadString(string(data))", "	return l.LoadString(strings.TrimPrefix(string(data), \"\\ufeff\"))")],
 "a flat language file that begins with a byte order mark", "the first key differs from the one of the same text loaded as a string", '''
func TestZZDemo(t *testing.T) {
	f, err := os.CreateTemp("", "zz")
	if err != nil {
		t.Skip(err)
	}
	defer os.Remove(f.Name())
	f.WriteString("\\ufeffa=1\\n")
	f.Close()
	l, err := NewXLanguageFromFile(f.Name())
	m, _ := NewXLanguageFromString("\\ufeffa=1\\n")
	if err != nil || l.String() != m.String() {
		t.Fatal("file and string differ")
	}
}''', ["os"])
seed("b38", "C41", [(X, "	for _, val := range *t.Root {\n		sdata = append(sdata, fmt.Sprintf(\"%v\", val))", "	for _, val := range *t.Root {\n		if val.ParamType == MetaComment {\n			continue\n		}\n		sdata = append(sdata, fmt.Sprintf(\"%v\", val))")],
 "String of a template with a comment", "the comment is not listed", '''
func TestZZDemo(t *testing.T) {
	x, _ := NewXTemplateFromString("a%--note--%b")
	if s := x.String(); !strings.Contains(s, "note") {
		t.Fatal(s)
	}
}''', ["strings"])
seed("b39", "C32", [(C1, "	num := total * perc / 100\n", "	num := (total*perc + 50) / 100\n")],
 "a percentage that does not give a whole number", "too many entries are evicted", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 0, 0)
	c.Set("a", 1)
	c.Set("b", 1)
	if n := c.Clean(49); n != 0 || c.Count() != 2 {
		t.Fatal("removed", n)
	}
}''', module="v1")
seed("b40", "C33", [(C1, "	x := len(c.items)\n", "	x := 0\n	if c.items != nil {\n		c.mutex.Unlock()\n		x = len(c.items)\n		c.mutex.Lock()\n	}\n")],
 "Count while another goroutine stores", "the map is read without the lock: data race", '''
func TestZZDemo(t *testing.T) {
	c := NewXCache("x", 0, 0)
	done := make(chan bool)
	go func() {
		for i := 0; i < 3000; i++ {
			c.Set("a", i)
			c.Del("a")
		}
		done <- true
	}()
	for i := 0; i < 3000; i++ {
		c.Count()
	}
	<-done
}''', module="v1", race=True)
seed("b41", "C35", [(D1, "	*d = append([]XDatasetDef{data}, (*d)...)", "	*d = append(*d, nil)\n	for i := 1; i < len(*d); i++ {\n		(*d)[i] = (*d)[i-1]\n	}\n	(*d)[0] = data")],
 "Unshift into a collection of two or more records", "all records but the first are overwritten by the old first one", '''
func TestZZDemo(t *testing.T) {
	a, b := &XDataset{"n": 1}, &XDataset{"n": 2}
	c := &XDatasetCollection{a, b}
	c.Unshift(&XDataset{})
	if r, _ := c.Get(2); r != XDatasetDef(b) {
		t.Fatal("record lost")
	}
}''', module="v1")
seed("b42", "C37", [(X1, "	codex := regexp.MustCompile(code)\n", "	codex := regexp.MustCompile(code)\n	data = strings.TrimPrefix(data, \"\\ufeff\")\n")],
 "a text that begins with a byte order mark", "it is not output", '''
func TestZZDemo(t *testing.T) {
	x, _ := NewXTemplateFromString("\\ufeffa")
	if s := x.Execute(&XDataset{}); s != "\\ufeffa" {
		t.Fatalf("%q", s)
	}
}''', module="v1")
seed("b43", "C40", [(D1, "	for key, val := range *d {\n		sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%v\", val))", "	for key, val := range *d {\n		if val == nil && len(*d) > 1 {\n			continue\n		}\n		sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%v\", val))")],
 "nil among other values", "its key is not listed", '''
func TestZZDemo(t *testing.T) {
	if s := (&XDataset{"a": nil, "b": 1}).String(); !strings.Contains(s, "a:") {
		t.Fatal(s)
	}
}''', ["strings"], module="v1")
