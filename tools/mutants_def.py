# (properties, [(file, old, new[, nth])], what)
C="v2/xcache.go"; D="v2/xdataset.go"; K="v2/xdatasetcollection.go"; KT="v2/xdatasetcollectionts.go"; T="v2/xdatasetts.go"; L="v2/xlanguage.go"; X="v2/xtemplate.go"
MUTANTS=[
# cache
("C01",[(C,"return x.data, false","if s, ok := x.data.(string); ok && s == \"\" {\n\t\t\treturn nil, false\n\t\t}\n\t\treturn x.data, false")],"empty strings come back as nil"),
("C01",[(C,"func (c *XCache) mDel(key string) {\n","func (c *XCache) mDel(key string) {\n\tif key == \"\" {\n\t\treturn\n\t}\n")],"empty key cannot be deleted"),
("C02",[(C,"x.ctime.Add(x.ttl).Before(time.Now())","x.rtime.Add(x.ttl).Before(time.Now())")],"TTL counts from last read"),
("C02",[(C,"if x.ctime.Add(c.Expire).Before(time.Now()) {\n				if LOG","if x.ttl == 0 && x.ctime.Add(c.Expire).Before(time.Now()) {\n				if LOG",0)],"Expire ignored when the entry has a TTL"),
("C02",[(C,"c.items[key].ttl = duration","c.items[key].ttl = duration.Truncate(time.Millisecond)")],"TTL truncated to ms"),
("C02",[(C,"		c.items[key].ttl = duration\n","		c.items[key].ttl = duration\n		c.items[key].ctime = time.Now()\n")],"SetTTL restarts the entry"),
("C03",[(C,"		if c.Validator != nil {\n			valid, same","		if c.Validator != nil && x.rtime.Before(time.Now()) {\n			valid, same")],"validator skipped for entries just read"),
("C03",[(C,"return c.Validator(key, x.ctime)","return c.Validator(key, x.rtime)")],"validator given the read time"),
("C03",[(C,"				c.mDel(k)\n				i++\n			}\n		}\n	}\n	return i","				c.mDel(k)\n			}\n		}\n	}\n	return i")],"Verify does not count"),
("C04",[(C,"len(c.items) >= c.Maxitems {","len(c.pile) >= c.Maxitems && !ok {")],"overwriting in a full cache"),
("C04 C05",[(C,"	for j := 0; j < num; j++ {\n		delete(c.items, c.pile[j])\n	}\n	c.pile = c.pile[num:]","	for j := 0; j < num; j++ {\n		delete(c.items, c.pile[len(c.pile)-1-j])\n	}\n	c.pile = c.pile[:len(c.pile)-num]")],"newest evicted"),
("C05",[(C,"		x.rtime = time.Now()\n		c.removeFromPile(key)\n		c.pile = append(c.pile, key)","		x.rtime = time.Now()\n		if c.pile[0] != key {\n			c.removeFromPile(key)\n			c.pile = append(c.pile, key)\n		}")],"reading the oldest does not make it young"),
("C05",[(C,"num := total * perc / 100","num := (total*perc + 99) / 100")],"rounding up"),
("C05",[(C,"	return i + num","	return num")],"Clean does not count expired"),
("C06",[(C,"func (c *XCache) Count() int {\n	c.mutex.RLock()\n	defer c.mutex.RUnlock()\n","func (c *XCache) Count() int {\n")],"Count without lock"),
("C06",[(C,"func (c *XCache) Del(key string) {\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	c.mDel(key)","func (c *XCache) Del(key string) {\n	c.mutex.RLock()\n	_, ok := c.items[key]\n	c.mutex.RUnlock()\n	if !ok {\n		return\n	}\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	delete(c.items, key)\n	for i := range c.pile {\n		if c.pile[i] == key {\n			c.pile = append(c.pile[:i], c.pile[i+1:]...)\n		}\n	}")],"Del range over shrinking pile"),
("C06",[(C,"	_, ok := c.items[key]\n	if ok {\n		c.items[key].ttl = duration","	c.mutex.Unlock()\n	_, ok := c.items[key]\n	c.mutex.Lock()\n	if ok {\n		c.items[key].ttl = duration")],"SetTTL reads without lock"),
("C06",[(C,"	c.items = make(map[string]*XCacheEntry)\n	c.pile = nil","	c.items = make(map[string]*XCacheEntry)\n	c.mutex.Unlock()\n	c.mutex.Lock()\n	c.pile = nil")],"Flush in two steps"),
# dataset
("C07",[(D,"	delete(*d, key)","	if (*d)[key] != nil {\n		delete(*d, key)\n	}")],"Del of nil value"),
("C07",[(D,"	(*d)[key] = data\n","	(*d)[strings.TrimRight(key, \" \")] = data\n")],"keys trimmed"),
("C08",[(D,"return ds.Get(strings.Join(xid[2:], \">\"))","return ds.Get(xid[2])")],"deep path below a record truncated"),
("C08",[(D,"return ds.Get(strings.Join(xid[1:], \">\"))","return ds.Get(xid[len(xid)-1])")],"middle of the path skipped"),
("C08",[(D,"			if err != nil {\n				return nil, false\n			}","			if err != nil {\n				entry = 0\n			}")],"bad index is 0"),
("C09",[(D,"		if val2, ok2 := val.(float32); ok2 {\n			return int(val2), true","		if val2, ok2 := val.(float32); ok2 {\n			return int(val2 + 0.5), true")],"rounding float32"),
("C09",[(D,"		if val2, ok2 := val.(int64); ok2 {\n			return int(val2), true","		if val2, ok2 := val.(int64); ok2 {\n			return int(int32(val2)), true")],"int64 truncated"),
("C09",[(D,"		if val2, ok2 := val.(uint64); ok2 {\n			return float64(val2), true","		if val2, ok2 := val.(uint64); ok2 {\n			return float64(int64(val2)), true")],"uint64 sign"),
("C09",[(D,"			return !val2.Equal(time.Time{}), true","			return val2.Unix() > 0, true")],"times before 1970 false"),
("C09",[(D,"		if val == nil {\n			return \"\", true\n		}\n		return fmt.Sprint(val), true","		if val == nil {\n			return \"\", false\n		}\n		return fmt.Sprint(val), true")],"nil string absent"),
("C10",[(D,"		if cloneable2, ok := val.(interface{ Clone() XDatasetCollectionDef }); ok {\n			clonedval = cloneable2.Clone()\n		}","		if cloneable2, ok := val.(*XDatasetCollection); ok {\n			clonedval = cloneable2.Clone()\n		}")],"TS collections not cloned"),
("C10",[(K,"		*cloned = append(*cloned, val.Clone())","		if len(*cloned) < 2 {\n			val = val.Clone()\n		}\n		*cloned = append(*cloned, val)")],"third record shared"),
("C11",[(K,"	*d = (*d)[1:]\n	return data","	copy(*d, (*d)[1:])\n	*d = (*d)[:len(*d)-1]\n	return data"),(K,"	for _, val := range *d {\n		*cloned = append(*cloned, val.Clone())\n	}","	*cloned = (*d)[:len(*d):len(*d)]")],"clone shares the array"),
("C11",[(K,"	*d = append([]XDatasetDef{data}, (*d)...)","	*d = append(*d, data)\n	if n := len(*d); n > 1 {\n		(*d)[0], (*d)[n-1] = (*d)[n-1], (*d)[0]\n	}")],"Unshift swaps"),
("C11",[(K,"if index < 0 || index >= len(*d) {","if index < 0 || index > len(*d)-1 && len(*d) != 1 {\n		return nil, false\n	}\n	if index > len(*d) {")],"index 1 of 1 panics"),
("C12",[(K,"		val, ok := (*d)[i].Get(key)\n		if ok {","		val, ok := (*d)[i].Get(key)\n		if ok && (val != nil || i == 0) {")],"nil looked through"),
("C12 C13",[(KT,"	for i := len(data) - 1; i >= 0; i-- {","	for i := 0; i < len(data); i++ {")],"TS searches from the start"),
("C12",[(K,"if val2, ok2 := val.(float64); ok2 {\n			return val2, true\n		}","if val2, ok2 := val.(float64); ok2 && val2 == val2 {\n			return val2, true\n		}")],"NaN absent"),
("C13",[(T,"	return ds.data.GetFloat(key)","	v, ok := ds.data.GetInt(key)\n	return float64(v), ok")],"TS GetFloat truncates"),
("C13",[(T,"	return ds.data.GetTimeCollection(key)","	return nil, false")],"TS no time collection"),
("C13",[(KT,"	if index < 0 || index >= len(dc.data) {","	if index < 0 {\n		index += len(dc.data)\n	}\n	if index < 0 || index >= len(dc.data) {")],"negative index"),
("C14",[(T,"	ds.mutex.Lock()\n	ds.data.Set(key, data)\n	ds.mutex.Unlock()","	ds.mutex.RLock()\n	ds.data.Set(key, data)\n	ds.mutex.RUnlock()")],"Set under read lock"),
("C14",[(T,"	ds.mutex.RLock()\n	defer ds.mutex.RUnlock()\n	return ds.data.GetBool(key)","	return ds.data.GetBool(key)")],"GetBool no lock"),
("C14",[(KT,"func (dc *XDatasetCollectionTS) Count() int {\n	dc.mutex.RLock()\n	defer dc.mutex.RUnlock()\n","func (dc *XDatasetCollectionTS) Count() int {\n")],"Count no lock"),
("C14",[(KT,"	dc.mutex.Lock()\n	dc.data = append(dc.data, data)\n	dc.mutex.Unlock()","	dc.mutex.RLock()\n	n := append(dc.data[:len(dc.data):len(dc.data)], data)\n	dc.mutex.RUnlock()\n	dc.mutex.Lock()\n	dc.data = n\n	dc.mutex.Unlock()")],"Push lost update"),
("C15",[(D,"			ds.Set(i, NewXDatasetCollection(v.([]map[string]interface{})))","			if len(v.([]map[string]interface{})) > 0 {\n				ds.Set(i, NewXDatasetCollection(v.([]map[string]interface{})))\n			}")],"empty collections dropped"),
("C15",[(D,"			ds.Set(i, NewXDataset(v.(map[string]interface{})))","			x := XDataset(v.(map[string]interface{}))\n			ds.Set(i, &x)")],"nested map not converted"),
("C16",[(D,"	sort.Strings(sdata) // Lets be sure the print is always the same presentation\n	return \"xcore.XDataset{\"","	if len(sdata) > 2 {\n		sort.Strings(sdata)\n	}\n	return \"xcore.XDataset{\"")],"two entries not sorted"),
("C16",[(D,"sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%v\", val))","if val != nil {\n			sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%v\", val))\n		}")],"nil not listed"),
# language
("C17",[(L,"posequal := strings.Index(line, \"=\")","posequal := strings.LastIndex(line, \"=\")")],"last ="),
("C17",[(L,"line := scanner.Text()","line := strings.TrimSpace(scanner.Text())")],"indented comments are comments"),
("C17",[(L,"value = strings.TrimSpace(line[posequal+1:])","value = strings.Trim(line[posequal+1:], \" \\t\")")],"only blanks trimmed"),
("C17",[(L,"		l.mutex.Lock()\n		l.entries[key] = value","		if _, ok := l.entries[key]; ok && value == \"\" {\n			continue\n		}\n		l.mutex.Lock()\n		l.entries[key] = value")],"empty value does not overwrite"),
("C17",[(L,"	scanner := bufio.NewScanner(strings.NewReader(data))\n","	scanner := bufio.NewScanner(strings.NewReader(data))\n	scanner.Buffer(nil, 4096)\n")],"long lines"),
("C18",[(L,"	delete(l.entries, entry)\n	delete(l.status, entry)","	delete(l.entries, entry)")],"status survives"),
("C18",[(L,"	clone := map[string]string{}\n	l.mutex.RLock()\n	defer l.mutex.RUnlock()\n	for k, v := range l.entries {\n		clone[k] = v\n	}\n	return clone","	l.mutex.RLock()\n	defer l.mutex.RUnlock()\n	return l.entries")],"entries shared"),
("C18",[(L,"func (l *XLanguage) Set(entry string, value string) {\n	l.mutex.Lock()\n	defer l.mutex.Unlock()\n","func (l *XLanguage) Set(entry string, value string) {\n	l.mutex.Lock()\n	defer l.mutex.Unlock()\n	if l.entries[entry] != value {\n		delete(l.status, entry)\n	}\n")],"Set resets status"),
("C19",[(L,"		l.status[e.ID] = e.Status\n","		if e.Status != \"\" {\n			l.status[e.ID] = e.Status\n		}\n")],"status kept"),
("C19",[(L,"		l.entries[e.ID] = e.Entry\n","		l.entries[e.ID] = strings.TrimSpace(e.Entry)\n")],"values trimmed"),
("C19",[(L,"	for key, val := range l.entries {\n		sdata = append(sdata, \"  <entry","	for key, val := range l.entries {\n		if val == \"\" {\n			continue\n		}\n		sdata = append(sdata, \"  <entry")],"empty entries not written"),
("C20",[(L,"func (l *XLanguage) Get(entry string) string {\n	l.mutex.RLock()\n	defer l.mutex.RUnlock()\n","func (l *XLanguage) Get(entry string) string {\n")],"Get no lock"),
("C20",[(L,"		l.mutex.Lock()\n		l.entries[key] = value\n		l.mutex.Unlock()","		l.entries[key] = value")],"LoadString no lock"),
("C20",[(L,"	l.mutex.Lock()\n	defer l.mutex.Unlock()\n	delete(l.entries, entry)\n	delete(l.status, entry)","	l.mutex.Lock()\n	delete(l.entries, entry)\n	l.mutex.Unlock()\n	l.mutex.Lock()\n	delete(l.status, entry)\n	l.mutex.Unlock()")],"Del in two steps"),
# templates
("C21",[(X,"`(%)--(.*?)--%(\\n|\\r|\\r\\n|\\n\\r)?`","`(%)--(.*)--%(\\n|\\r|\\r\\n|\\n\\r)?`")],"greedy comment"),
("C21",[(X,"`(%)--(.*?)--%(\\n|\\r|\\r\\n|\\n\\r)?`","`(%)--(.+?)--%(\\n|\\r|\\r\\n|\\n\\r)?`")],"empty comment"),
("C21",[(X,"`(?s)` + // . is multiline","`(?s)(?:)` + // x"),(X,"--(.*?)--%","--([^\\n]*?)--%")],"comments on one line only"),
("C21",[(X,"--%(\\n|\\r|\\r\\n|\\n\\r)?`","--%(\\s*\\n)?`")],"eats blanks"),
("C21",[(X,"	if pointer != len(data) {\n","	if pointer < len(data)-1 {\n")],"single last byte lost"),
("C22",[(X,"	if len(startpointers) > 0 {\n		return errors.New","	if len(startpointers) > 1 {\n		return errors.New")],"one unclosed accepted"),
("C22",[(X,"			if last < 0 {\n				return errors.New(\"Error: template mismatch Start/End\")\n			}","			if last < 0 {\n				continue\n			}")],"extra end accepted"),
("C22",[(X,"(\\[)\\[([a-z0-9\\|\\.\\-_]+?)\\]\\]","(\\[)\\[([a-z0-9\\|\\._]+?)\\]\\]")],"no - in names"),
("C23",[(X,"injected = append(injected, language.Get(v.Data))","injected = append(injected, language.Get(strings.ToLower(v.Data)))")],"entry lower case"),
("C23",[(X,"				d, _ := datacol.GetDataString(v.Data)\n				injected = append(injected, d)","				d, _ := datacol.GetDataString(v.Data)\n				injected = append(injected, strings.TrimRight(d, \"\\n\"))")],"values trimmed"),
("C23",[(X,"(#)#([a-zA-Z0-9-_\\.]+?)##","(#)#([a-zA-Z0-9_\\.]+?)##")],"no - in entries"),
("C24",[(X,"					if withds {\n						datacol.Pop()\n					}\n					injected","					if withds && len(substr) > 0 {\n						datacol.Pop()\n					}\n					injected")],"level kept after empty output"),
("C24",[(X,"				subt := t.GetTemplate(prefix + value)","				subt := t.SubTemplates[prefix+value]")],"prefix only own level"),
("C25",[(X,"if tmp == nil && i == cl.Count()-1 {","if tmp == nil && i > 0 && i == cl.Count()-1 {")],"single record: last not used when no first"),
("C25",[(X,"							dcl.Set(\".counter\", i+1)","							if _, ok := dcl.Get(\".counter\"); !ok {\n								dcl.Set(\".counter\", i+1)\n							}")],"counter kept (needs a reused record)"),
("C25",[(X,"							tmp = t.GetTemplate(subtemplateid + \".key.\" + strconv.Itoa(i))\n","							if i < 10 {\n								tmp = t.GetTemplate(subtemplateid + \".key.\" + strconv.Itoa(i))\n							}\n")],"key of two digits"),
("C25",[(X,"if tmp == nil && i%2 == 0 {","if tmp == nil && i%2 == 0 && i > 0 {")],"even of first"),
("C26",[(X,"					svalue = \"array\"","					svalue = \"dataset\"")],"array variant"),
("C26",[(X,"				if svalue != \"\" {\n","				if svalue != \"\" && svalue != \"0\" {\n")],"0 counts as empty"),
("C26",[(X,"				if withds {\n					datacol.Pop()\n				}\n			}\n			if value == nil","				if withds && subt.Root != nil && len(*subt.Root) > 0 {\n					datacol.Pop()\n				}\n			}\n			if value == nil")],"empty sub template keeps the level"),
("C27",[(X,"	tmp := t.SubTemplates[name]\n	if tmp != nil {\n		return tmp\n	}\n	if t.Father != nil {\n		return t.Father.GetTemplate(name)\n	}","	tmp := t.SubTemplates[name]\n	if tmp != nil {\n		return tmp\n	}\n	if t.Father != nil && t.Father.SubTemplates != nil {\n		return t.Father.SubTemplates[name]\n	}")],"grandfather not searched"),
("C27",[(X,"				vals := strings.Split(actualtemplate.Name, \"|\")\n","				vals := strings.SplitN(actualtemplate.Name, \"|\", 3)\n")],"at most three names"),
("C28",[(X,"			newroot = append(newroot, *td.Clone())","			if td.ParamType == MetaComment {\n				break\n			}\n			newroot = append(newroot, *td.Clone())")],"comment ends clone"),
("C28",[(X,"			newsubtemplates[id] = xt.Clone()\n","			if len(xt.SubTemplates) == 0 {\n				c := *xt\n				newsubtemplates[id] = &c\n			} else {\n				newsubtemplates[id] = xt.Clone()\n			}\n")],"leaf shares Root"),
("C29",[(X,"		case MetaComment:\n			// nothing to do: comment ignored\n","		case MetaComment:\n			t.Name = v.Data\n")],"writes the template"),
("C29",[(X,"		stack := &XDatasetCollection{}\n		stack.Push(data)","		if language == nil {\n			data.Set(\"#\", nil)\n		}\n		stack := &XDatasetCollection{}\n		stack.Push(data)")],"adds # to the data"),
("C30",[(X,"	data, err := ioutil.ReadAll(tFile)\n	if err != nil {\n		return err\n	}","	_ = ioutil.Discard\n	data := make([]byte, 4096)\n	n, _ := tFile.Read(data)\n	data = data[:n]")],"4096 bytes only, read error ignored"),
("C30",[(L,"	data, err := ioutil.ReadAll(flatFile)\n	if err != nil {\n		return err\n	}","	data, _ := ioutil.ReadAll(flatFile)")],"read error ignored"),
("C30",[(X,"	return t.LoadString(string(data))","	return t.LoadString(strings.TrimPrefix(string(data), \"\\xef\\xbb\\xbf\"))")],"BOM removed"),
]
# the same changes in v1 where the text is the same
import os
V1={"C01":"C31","C02":"C31","C03":"C31","C04":"C32","C05":"C32","C06":"C33","C07":"C34","C08":"C34","C09":"C34","C10":"C34","C11":"C35","C12":"C35","C16":"C40","C17":"C36","C18":"C36","C19":"C36","C21":"C37","C22":"C37","C23":"C37","C24":"C38","C25":"C38","C26":"C38","C27":"C39","C29":"C39"}
def port(m):
    props=sorted({V1[p] for p in m[0].split() if p in V1})
    if not props: return None
    edits=[]
    for e in m[1]:
        f=e[0][3:]
        if f in ("xdatasetts.go","xdatasetcollectionts.go"): return None
        if f=="xdatasetcollection.go": f="xdataset.go"
        s=open("/repo/"+f).read()
        old,new=e[1],e[2]
        if f=="xlanguage.go": old,new=old.replace("l.entries","l.Entries"),new.replace("l.entries","l.Entries")
        if s.count(old)==0 or (s.count(old)>1 and len(e)<4): return None
        edits.append((f,old,new)+tuple(e[3:]))
    return (" ".join(props),edits,"v1: "+m[2])
MUTANTS+=[x for x in map(port,MUTANTS) if x]
# second wave
GET="		x.rtime = time.Now()\n		c.removeFromPile(key)\n		c.pile = append(c.pile, key)\n"
WAVE2=[
("C01",[(C,"	_, ok := c.items[key]\n	c.items[key] = &XCacheEntry","	old, ok := c.items[key]\n	if ok && fmt.Sprint(old.data) == fmt.Sprint(indata) {\n		return\n	}\n	c.items[key] = &XCacheEntry"),(C,"import (\n","import (\n	\"fmt\"\n")],"a value that prints alike is not stored"),
("C01",[(C,"	c.items[key] = &XCacheEntry{ctime","	if indata == nil {\n		c.mDel(key)\n		return\n	}\n	c.items[key] = &XCacheEntry{ctime")],"nil deletes"),
("C01 C05",[(C,"		if x == key {\n			if i ==","		if strings.EqualFold(x, key) {\n			if i =="),(C,"import (\n","import (\n	\"strings\"\n")],"pile entries compared without case"),
("C01",[(C,"	c.items = make(map[string]*XCacheEntry)\n	c.pile = nil","	c.items = make(map[string]*XCacheEntry)")],"Flush keeps the pile"),
("C01",[(C,"func (c *XCache) Del(key string) {\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	c.mDel(key)","func (c *XCache) Del(key string) {\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	c.mDel(strings.TrimSpace(key))"),(C,"import (\n","import (\n	\"strings\"\n")],"Del trims the key"),
("C01",[(C,"	x := len(c.items)\n	return x","	x := 0\n	for _, e := range c.items {\n		if e.data != nil {\n			x++\n		}\n	}\n	return x")],"Count ignores nil"),
("C01",[(C,"	return &XCache{\n","	return &XCache{\n",0)],"(none)"),
("C02",[(C,"x.ctime.Add(x.ttl).Before(time.Now())","!x.ctime.Add(x.ttl).After(time.Now())")],"TTL expires at the instant itself"),
("C02",[(C,"if x.ttl != 0 {\n","if x.ttl > 0 {\n")],"negative TTL ignored"),
("C02",[(C,"c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	if ok {\n","e := &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	if ok {\n		e.ttl = c.items[key].ttl\n	}\n	c.items[key] = e\n	if ok {\n")],"overwriting keeps the TTL"),
("C02",[(C,"c.items[key].ttl = duration","if c.Expire == 0 || duration < c.Expire {\n			c.items[key].ttl = duration\n		}")],"TTL above Expire ignored"),
("C02",[(C,"			if x.ctime.Add(c.Expire).Before(time.Now()) {\n				if LOG {\n					log.Println(\"Cache timeout Expired: \" + key)","			if time.Now().Unix()-x.ctime.Unix() > int64(c.Expire/time.Second) {\n				if LOG {\n					log.Println(\"Cache timeout Expired: \" + key)")],"expiry in whole seconds"),
("C02",[(C,"				c.mDel(key)\n				return nil, true\n			}\n		}\n		if c.Validator","				return nil, true\n			}\n		}\n		if c.Validator")],"TTL-expired entry not removed"),
("C02",[(C,"	_, ok := c.items[key]\n	if ok {\n		c.items[key].ttl = duration","	_, ok := c.items[key]\n	if ok && c.items[key].ttl == 0 {\n		c.items[key].ttl = duration")],"TTL set once only"),
("C03",[(C,"return c.Validator(key, x.ctime)","ok := c.Validator(key, x.ctime)\n		if ok {\n			x.ctime = time.Now()\n		}\n		return ok")],"validated entries are renewed"),
("C03",[(C,"		for k, x := range items {\n			if c.items[k] != x {\n				continue\n			}\n","		for k, x := range items {\n			if c.items[k] != x {\n				continue\n			}\n			if i > 0 {\n				break\n			}\n")],"Verify stops after a removal"),
("C03",[(C,"				c.mDel(key)\n				return nil, true\n			}\n		}\n		// expired ?","				delete(c.items, key)\n				return nil, true\n			}\n		}\n		// expired ?")],"rejected key stays in the pile"),
("C03",[(C,"			if !valid {\n","			if !valid && x.data != nil {\n")],"nil values always valid"),
("C03",[(C,"	if c.Validator != nil {\n		c.mutex.Lock()","	if c.Validator != nil && c.Maxitems == 0 {\n		c.mutex.Lock()")],"Verify does not ask in a limited cache"),
("C03",[(C,"	i := c.Clean(0)\n	// 2","	i := 0\n	if c.Validator == nil {\n		i = c.Clean(0)\n	}\n	// 2")],"Verify keeps expired entries if there is a validator"),
("C04 C05",[(C,"		for len(c.items) > c.Maxitems {","		for len(c.items) >= c.Maxitems {")],"evicts one more"),
("C04",[(C,"	if c.Maxitems > 0 && len(c.items)","	if c.Maxitems > 1 && len(c.items)")],"limit 1 ignored"),
("C04",[(C,"	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {","	if c.Maxitems > 0 && len(c.items) >= c.Maxitems && !ok {")],"overwriting does not clean (maybe equivalent)"),
("C05",[(C,"		c.items[key].ttl = duration\n","		c.items[key].ttl = duration\n		c.removeFromPile(key)\n		c.pile = append(c.pile, key)\n")],"SetTTL counts as use"),
("C05",[(C,GET,"		if x.rtime != time.Now() {\n			c.removeFromPile(key)\n			c.pile = append(c.pile, key)\n		}\n		x.rtime = time.Now()\n")],"two reads in one instant"),
("C05",[(C,"	total := len(c.items)\n","	total := len(c.items) + i\n"),(C,"	for j := 0; j < num; j++ {","	if num > len(c.pile) {\n		num = len(c.pile)\n	}\n	for j := 0; j < num; j++ {")],"percentage of the number before expiry"),
("C05",[(C,"			if x.ctime.Add(c.Expire).Before(time.Now()) {\n				if LOG {\n					log.Println(\"Cache timeout Expired: \" + k)","			if x.rtime.Add(c.Expire).Before(time.Now()) {\n				if LOG {\n					log.Println(\"Cache timeout Expired: \" + k)")],"Clean: expiry since last read"),
("C05",[(C,"	if ok {\n		c.removeFromPile(key)\n	}\n	c.pile = append(c.pile, key)","	if !ok {\n		c.pile = append(c.pile, key)\n	}")],"overwriting is no use"),
("C05",[(C,"	num := total * perc / 100\n","	num := total * perc / 100\n	if perc > 0 && num == 0 && total > 0 {\n		num = 1\n	}\n")],"at least one"),
("C06",[(C,"func (c *XCache) Clean(perc int) int {\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	return c.mClean(perc)","func (c *XCache) Clean(perc int) int {\n	c.mutex.RLock()\n	n := len(c.items)\n	c.mutex.RUnlock()\n	if n == 0 {\n		return 0\n	}\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	if len(c.items) < n {\n		return 0\n	}\n	return c.mClean(perc)")],"Clean gives up when entries vanish"),
("C06",[(C,"	return valid, c.items[key] == x\n","	return valid, true\n")],"Validator verdict on a replaced entry"),
("C06",[(C,"func (c *XCache) Get(key string) (interface{}, bool) {\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n","func (c *XCache) Get(key string) (interface{}, bool) {\n	c.mutex.RLock()\n	_, found := c.items[key]\n	c.mutex.RUnlock()\n	if !found {\n		return nil, false\n	}\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n")],"Get: two sections (equivalent)"),
("C06",[(C,"	c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n","	c.mutex.Unlock()\n	e := &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	c.mutex.Lock()\n	c.items[key] = e\n")],"Set: lock released between"),
("C07",[(D,"	data, ok := (*d)[key]\n	if ok {","	data, ok := (*d)[key]\n	if ok && data != nil {")],"nil absent"),
("C07",[(D,"	(*d)[key] = data\n","	if s, ok := data.(string); ok {\n		data = strings.ToValidUTF8(s, \"?\")\n	}\n	(*d)[key] = data\n")],"invalid UTF-8 replaced"),
("C07",[(D,"	delete(*d, key)","	delete(*d, strings.ToLower(key))\n	delete(*d, key)")],"Del also deletes the lower case key"),
("C08",[(D,"			entry, err := strconv.Atoi(xid[1])","			e8, err := strconv.ParseInt(xid[1], 10, 8)\n			entry := int(e8)")],"index above 127"),
("C08",[(D,"			entry, err := strconv.Atoi(xid[1])","			e8, err := strconv.ParseUint(xid[1], 10, 64)\n			entry := int(uint16(e8))")],"index modulo 65536"),
("C08",[(D,"	if len(xid) > 1 {\n","	if len(xid) > 1 && len(xid) < 9 {\n")],"paths up to 8 segments"),
("C08",[(D,"			ds, _ := dsc.Get(entry)\n			if ds == nil {\n				return nil, false\n			}","			if entry >= dsc.Count() {\n				entry = dsc.Count() - 1\n			}\n			ds, _ := dsc.Get(entry)\n			if ds == nil {\n				return nil, false\n			}")],"index beyond the end is the last"),
("C09",[(D,"		if val2, ok2 := val.(float64); ok2 {\n			return int(val2), true","		if val2, ok2 := val.(float64); ok2 {\n			return int(int32(val2)), true")],"float64 through int32"),
("C09",[(D,"		if val2, ok2 := val.(float32); ok2 {\n			return float64(val2), true","		if val2, ok2 := val.(float32); ok2 {\n			return float64(int(val2*1000)) / 1000, true")],"float32 rounded"),
("C09",[(D,"		if val2, ok2 := val.(uint); ok2 {\n			return int(val2), true","		if val2, ok2 := val.(uint); ok2 {\n			return int(uint32(val2)), true")],"uint truncated"),
("C09",[(D,"		if val2, ok2 := val.(float64); ok2 {\n			return val2 != 0, true","		if val2, ok2 := val.(float64); ok2 {\n			return int(val2) != 0, true")],"0.5 false"),
("C09",[(D,"		return val != nil, true","		if s, ok := val.(string); ok {\n			return s != \"\" && s != \"false\", true\n		}\n		return val != nil, true")],"strings as bool"),
("C09",[(D,"			return int(val2.Unix()), true","			return int(val2.UnixNano() / 1000000000), true")],"times outside the nanosecond range"),
("C09",[(D,"		return fmt.Sprint(val), true","		if f, ok := val.(float64); ok {\n			return strconv.FormatFloat(f, 'f', -1, 64), true\n		}\n		return fmt.Sprint(val), true")],"floats without exponent"),
("C10",[(D,"		case []time.Time:\n			clonedval = append(slice[:0:0], slice...)\n","")],"time slices shared"),
("C10",[(D,"		case []bool:\n			clonedval = append(slice[:0:0], slice...)","		case []bool:\n			clonedval = slice[:len(slice):len(slice)]")],"bool slices shared"),
("C10",[(T,"	cloned := &XDatasetTS{}\n	ds.mutex.RLock()\n	cloned.data = ds.data.Clone()\n	ds.mutex.RUnlock()\n	return cloned","	ds.mutex.RLock()\n	defer ds.mutex.RUnlock()\n	return ds.data.Clone()")],"TS clone is plain"),
("C10",[(D,"		cloned.Set(id, clonedval)","		if id != \"#\" {\n			cloned.Set(id, clonedval)\n		}")],"# not cloned"),
("C10",[(D,"		cloned.Set(id, clonedval)","		if clonedval != nil {\n			cloned.Set(id, clonedval)\n		}")],"nil not cloned"),
("C11",[(K,"	*d = append(*d, data)","	for _, x := range *d {\n		if x == data {\n			return\n		}\n	}\n	*d = append(*d, data)")],"a record is in it once"),
("C11",[(K,"	*d = append([]XDatasetDef{data}, (*d)...)","	*d = append(*d, nil)\n	for i := len(*d) - 2; i > 0; i-- {\n		(*d)[i+1] = (*d)[i]\n	}\n	if len(*d) > 2 {\n		(*d)[1] = (*d)[0]\n	} else if len(*d) == 2 {\n		(*d)[1] = (*d)[0]\n	}\n	(*d)[0] = data")],"Unshift in place (equivalent)"),
("C12",[(K,"		if val2, ok2 := val.(int); ok2 {\n			return val2, true\n		}","		if val2, ok2 := val.(int); ok2 {\n			return val2, true\n		}\n		if val2, ok2 := val.(bool); ok2 && val2 {\n			return 1, true\n		}")],"true as int"),
("C12",[(K,"		if val2, ok2 := val.(time.Time); ok2 {\n			return val2, true\n		}","		if val2, ok2 := val.(time.Time); ok2 && !val2.IsZero() {\n			return val2, true\n		}")],"zero time absent"),
("C12",[(K,"	for i := len(*d) - 1; i >= 0; i-- {\n		val, ok := (*d)[i].Get(key)","	for i := len(*d) - 1; i >= 0 && i > len(*d)-9; i-- {\n		val, ok := (*d)[i].Get(key)")],"only the last 8 records"),
("C12",[(K,"		if val == nil {\n			return \"\", true\n		}\n		return fmt.Sprint(val), true","		if val == nil {\n			return \"\", false\n		}\n		return fmt.Sprint(val), true")],"nil string absent"),
("C13",[(KT,"	cloned := &XDatasetCollectionTS{}\n	for _, val := range dc.records() {\n		cloned.data = append(cloned.data, val.Clone())\n	}\n	return cloned","	cloned := &XDatasetCollection{}\n	for _, val := range dc.records() {\n		cloned.Push(val.Clone())\n	}\n	return cloned")],"TS collection clone is plain"),
("C13 C07",[(T,"	ds.mutex.Lock()\n	ds.data.Set(key, data)\n	ds.mutex.Unlock()","	ds.mutex.Lock()\n	if data == nil {\n		ds.data.Del(key)\n	} else {\n		ds.data.Set(key, data)\n	}\n	ds.mutex.Unlock()")],"TS Set nil deletes"),
("C14",[(KT,"	dc.mutex.RLock()\n	defer dc.mutex.RUnlock()\n	return append([]XDatasetDef{}, dc.data...)","	dc.mutex.RLock()\n	defer dc.mutex.RUnlock()\n	return dc.data")],"records share the array (needs Unshift in place; maybe equivalent)"),
("C15",[(D,"				dscit, ok := it.(map[string]interface{})\n				if ok {","				dscit, ok := it.(map[string]interface{})\n				if ok && len(dscit) > 0 {")],"empty maps in lists dropped"),
("C15",[(D,"		default:\n			ds.Set(i, v)","		case nil:\n		default:\n			ds.Set(i, v)")],"nil dropped"),
("C15",[(D,"		default:\n			ds.Set(i, v)","		case map[string]string:\n			m := &XDataset{}\n			for k, s := range v.(map[string]string) {\n				m.Set(k, s)\n			}\n			ds.Set(i, m)\n		default:\n			ds.Set(i, v)")],"string maps converted"),
("C15",[(K,"	for _, v := range data {\n		dsc.Push(NewXDataset(v))","	for _, v := range data {\n		if v == nil {\n			continue\n		}\n		dsc.Push(NewXDataset(v))")],"nil maps dropped"),
("C16",[(K,"		str += strconv.Itoa(key) + \":\" + fmt.Sprint(val) + \" \"","		if key < 10 {\n			str += strconv.Itoa(key) + \":\" + fmt.Sprint(val) + \" \"\n		}")],"ten records only"),
("C16",[(L,"	for key, val := range l.entries {\n		sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%v\", val))","	for key, val := range l.entries {\n		if val == \"\" {\n			delete(l.entries, key)\n		}\n		sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%v\", val))")],"String deletes empty entries"),
("C17",[(L,"	scanner := bufio.NewScanner(strings.NewReader(data))\n","	scanner := bufio.NewScanner(strings.NewReader(strings.TrimPrefix(data, \"\\ufeff\")))\n")],"BOM stripped"),
("C17",[(L,"		key := strings.TrimSpace(line[:posequal])","		key := strings.ToLower(strings.TrimSpace(line[:posequal]))")],"lower case keys"),
("C17",[(L,"			value = strings.TrimSpace(line[posequal+1:])","			value = strings.TrimSpace(line[posequal+1:])\n			if len(value) > 1 && value[0] == '\"' && value[len(value)-1] == '\"' {\n				value = value[1 : len(value)-1]\n			}")],"quotes removed"),
("C17",[(L,"			value = strings.TrimSpace(line[posequal+1:])","			value = strings.TrimSpace(line[posequal+1:])\n			value = strings.Replace(value, \"\\\\n\", \"\\n\", -1)")],"\\n replaced"),
("C17",[(L,"line[0] == ';' || posequal < 0","line[0] == ';' || strings.HasPrefix(line, \"//\") || posequal < 0")],"// comments"),
("C17",[(L,"			value = strings.TrimSpace(line[posequal+1:])","			value = strings.TrimSpace(line[posequal+1:])\n			if p := strings.Index(value, \" #\"); p >= 0 {\n				value = value[:p]\n			}")],"trailing comments"),
("C18",[(L,"	l.entries[entry] = value\n}","	l.entries[entry] = value\n	delete(l.status, entry)\n}")],"Set clears the status"),
("C18",[(L,"	l.Language = lang\n","	base, _ := lang.Base()\n	l.Language, _ = language.Compose(base)\n")],"only the base language"),
("C18",[(L,"	v, ok := l.status[entry]\n	if ok {","	v, ok := l.status[entry]\n	if _, has := l.entries[entry]; ok && has {")],"status of an absent entry"),
("C19",[(L,"	l.Language, _ = language.Parse(temp.Language)","	l.Language, _ = language.Parse(temp.Language)\n	if b, c := l.Language.Base(); c == language.Exact {\n		l.Language, _ = language.Compose(b)\n	}")],"only the base language"),
("C19",[(L,"	for _, e := range temp.Entries {\n","	for _, e := range temp.Entries {\n		if _, ok := l.entries[e.ID]; ok && e.Entry == \"\" {\n			continue\n		}\n")],"empty text does not replace"),
("C19",[(L,"	err := xml.Unmarshal([]byte(data), temp)\n","	err := xml.Unmarshal([]byte(strings.TrimSpace(data)), temp)\n")],"spaces trimmed (equivalent?)"),
("C19",[(L,"cdataXML.Replace(val)","cdataXML.Replace(strings.Replace(val, \"\\t\", \" \", -1))")],"tabs to spaces"),
("C20",[(L,"	clone := map[string]string{}\n	l.mutex.RLock()\n	defer l.mutex.RUnlock()\n","	clone := map[string]string{}\n")],"GetEntries no lock"),
("C20",[(L,"func (l *XLanguage) SetStatus(entry string, value string) {\n	l.mutex.Lock()\n	defer l.mutex.Unlock()","func (l *XLanguage) SetStatus(entry string, value string) {\n	l.mutex.RLock()\n	defer l.mutex.RUnlock()")],"SetStatus read lock"),
("C20",[(L,"func (l *XLanguage) GetXML() string {\n	sdata := []string{}\n	l.mutex.RLock()\n	defer l.mutex.RUnlock()\n","func (l *XLanguage) GetXML() string {\n	sdata := []string{}\n	l.GetName()\n	l.mutex.RLock()\n	defer l.mutex.RUnlock()\n	l.GetLanguage()\n")],"nested read lock"),
("C21",[(X,"	indexes := codex.FindAllStringIndex(data, -1)","	data = strings.Replace(data, \"\\r\\n\", \"\\n\", -1)\n	indexes := codex.FindAllStringIndex(data, -1)")],"CRLF to LF"),
("C21",[(X,"	indexes := codex.FindAllStringIndex(data, -1)\n	matches := codex.FindAllStringSubmatch(data, -1)","	indexes := codex.FindAllStringIndex(data, 1000)\n	matches := codex.FindAllStringSubmatch(data, 1000)")],"1000 elements only"),
("C21",[(X,"	indexes := codex.FindAllStringIndex(data, -1)","	data = strings.TrimRight(data, \"\\x00\")\n	indexes := codex.FindAllStringIndex(data, -1)")],"trailing NUL"),
("C21",[(X,"	return strings.Join(injected, \"\")","	return strings.ToValidUTF8(strings.Join(injected, \"\"), \"\")")],"invalid UTF-8 dropped"),
("C23",[(X,"				d, _ := datacol.GetDataString(v.Data)\n				injected","				d, _ := datacol.GetDataString(v.Data)\n				if d == \"\" {\n					d, _ = datacol.GetDataString(strings.ToLower(v.Data))\n				}\n				injected")],"empty falls back to lower case"),
("C23",[(X,"				injected = append(injected, language.Get(v.Data))","				s := language.Get(v.Data)\n				if s == \"\" {\n					s = v.Data\n				}\n				injected = append(injected, s)")],"missing entry shows its name"),
("C23",[(X,"`|(\\{)\\{([a-zA-Z0-9-_\\=\\>\\:\\|\\.]+?)\\}\\}`","`|(\\{)\\{([a-zA-Z0-9-_\\>\\:\\|\\.]+?)\\}\\}`")],"no = in fields"),
("C24",[(X,"				if subt != nil {\n					substr := subt.injector(datacol, language)\n					injected = append(injected, substr)\n				} else {\n					subt := t.GetTemplate(prefix)","				if subt != nil && value != \"\" {\n					substr := subt.injector(datacol, language)\n					injected = append(injected, substr)\n				} else {\n					subt := t.GetTemplate(prefix)")],"empty value (equivalent)"),
("C24",[(X,"						if ok {\n							withds = true\n							datacol.Push(ds)\n						}\n					}\n					substr","						if ok {\n							withds = true\n							datacol.Push(ds)\n						} else if dcl != nil {\n							continue\n						}\n					}\n					substr")],"reference with a scalar"),
("C24",[(X,"				subt := t.GetTemplate(prefix + value)","				subt := t.GetTemplate(prefix + strings.ToLower(value))")],"value lower case"),
("C25",[(X,"						for i := 0; i < cl.Count(); i++ {","						n := cl.Count()\n						if n > 256 {\n							n = 256\n						}\n						for i := 0; i < n; i++ {")],"256 records"),
("C25",[(X,"							if tmp == nil && i == 0 {","							if tmp == nil && i == 0 && cl.Count() > 1 {")],"first only if several"),
("C25",[(X,"						tmp = t.GetTemplate(subtemplateid + \".none\")\n						if tmp == nil {\n							tmp = subt\n						}\n						substr := tmp","						tmp = t.GetTemplate(subtemplateid + \".none\")\n						if tmp == nil {\n							continue\n						}\n						substr := tmp")],"no none: nothing"),
("C25",[(X,"							dcl, _ := cl.Get(i)\n","							dcl, _ := cl.Get(i)\n							dcl = dcl.Clone()\n")],"records cloned (equivalent apart from .counter)"),
("C26",[(X,"				if svalue != \"\" {\n","				if svalue != \"\" && svalue != \"false\" {\n")],"false hidden"),
("C26",[(X,"					svalue = fmt.Sprint(value)\n","					svalue = strings.TrimSpace(fmt.Sprint(value))\n")],"value trimmed"),
("C26",[(X,"			if value == nil || fmt.Sprint(value) == \"\" {\n				tmp","			if value == nil {\n				tmp")],"empty string shows nothing"),
("C27",[(X,"	tmpl.Father = t\n	t.SubTemplates[name] = tmpl","	tmpl.Father = t\n	if _, ok := t.SubTemplates[name]; !ok {\n		t.SubTemplates[name] = tmpl\n	}")],"first declaration wins"),
("C27",[(X,"	tmpl.Father = t\n	t.SubTemplates[name] = tmpl","	if tmpl.Father == nil {\n		tmpl.Father = t\n	}\n	t.SubTemplates[name] = tmpl")],"father kept (equivalent unless re-added)"),
("C27",[(X,"					if len(v) > 0 {\n						uppertemplate","					if len(v) > 1 {\n						uppertemplate")],"one-letter aliases"),
("C28",[(X,"			newsubtemplates[id].Father = cloned\n","			if newsubtemplates[id].Father == nil {\n				newsubtemplates[id].Father = cloned\n			}\n")],"sub templates keep the old father"),
("C28",[(X,"	cloned.Father = t.Father\n","")],"father lost"),
("C28",[(X,"		newsubtemplates := map[string]*XTemplate{}\n		for id, xt := range t.SubTemplates {","		newsubtemplates := map[string]*XTemplate{}\n		for id, xt := range t.SubTemplates {\n			if len(newsubtemplates) > 9 {\n				newsubtemplates[id] = xt\n				continue\n			}")],"eleventh sub template shared"),
("C29",[(X,"		stack := &XDatasetCollection{}\n		stack.Push(data)\n		return t.injector(stack, language)","		stack := &XDatasetCollection{}\n		stack.Push(data)\n		if language == nil {\n			language = lastLanguage\n		} else {\n			lastLanguage = language\n		}\n		return t.injector(stack, language)"),(X,"// MetaString and other consts:","var lastLanguage *XLanguage\n\n// MetaString and other consts:")],"language of the last execution"),
("C29",[(X,"							dcl.Set(\".counter\", i+1)\n","							dcl.Set(\".counter\", i+1)\n							dcl.Set(\".count\", cl.Count())\n")],"adds .count to the data"),
("C30",[(L,"	data, err := ioutil.ReadFile(file)\n	if err != nil {\n		return err\n	}","	data, err := ioutil.ReadFile(file)\n	if err != nil {\n		return err\n	}\n	if len(data) == 0 {\n		return nil\n	}")],"empty XML file accepted"),
("C30",[(X,"	tFile, err := os.Open(file)\n	if err != nil {\n		return err\n	}","	tFile, err := os.Open(file)\n	if os.IsNotExist(err) {\n		return nil\n	}\n	if err != nil {\n		return err\n	}")],"missing file accepted"),
("C30",[(X,"	err := t.LoadFile(file)\n	if err != nil {\n		return nil, err\n	}\n	return t, nil","	err := t.LoadFile(file)\n	return t, err")],"template with an error"),
("C41",[(X,"					dsubstr, _ := datacol.Get(0)","					dsubstr, _ := datacol.Get(datacol.Count() - 1)")],"dump of the current level"),
("C41",[(X,"if v.Data == \"dump\" || v.Data == \"list\" {","if v.Data == \"dump\" || v.Data == \"list\" || v.Data == \"debug\" {")],"another word"),
("C41",[(X,"						substr := dsubstr.GoString()","						substr := dsubstr.String()")],"String instead of GoString"),
("C41",[(X,"		sdata = append(sdata, fmt.Sprintf(\"%v\", val))\n	}\n	sort","		if val.ParamType != MetaComment {\n			sdata = append(sdata, fmt.Sprintf(\"%v\", val))\n		}\n	}\n	sort")],"comments not in String"),
# answers remembered
("C08",[(D,"func (d *XDataset) Get(key string) (interface{}, bool) {\n	xid","var pathMemo = map[string]interface{}{}\n\nfunc (d *XDataset) Get(key string) (interface{}, bool) {\n	if strings.Count(key, \">\") > 0 {\n		k := fmt.Sprintf(\"%p\", d) + key\n		if v, ok := pathMemo[k]; ok {\n			return v, true\n		}\n		v, ok := d.get(key)\n		if ok {\n			pathMemo[k] = v\n		}\n		return v, ok\n	}\n	return d.get(key)\n}\n\nfunc (d *XDataset) get(key string) (interface{}, bool) {\n	xid")],"paths remembered"),
("C17 C18",[(L,"	l := &XLanguage{entries: make(map[string]string), status: make(map[string]string)}\n	err := l.LoadString(data)","	if l, ok := loaded[data]; ok {\n		return l, nil\n	}\n	l := &XLanguage{entries: make(map[string]string), status: make(map[string]string)}\n	loaded[data] = l\n	err := l.LoadString(data)"),(L,"// SetName will","var loaded = map[string]*XLanguage{}\n\n// SetName will")],"tables by text"),
("C27",[(X,"	t := &XTemplate{}\n	err := t.LoadString(data)","	if t, ok := compiled[data]; ok {\n		return t, nil\n	}\n	t := &XTemplate{}\n	compiled[data] = t\n	err := t.LoadString(data)"),(X,"// MetaString and other consts:","var compiled = map[string]*XTemplate{}\n\n// MetaString and other consts:")],"templates by text"),
("C30",[(X,"func (t *XTemplate) LoadFile(file string) error {\n","var contents = map[string]string{}\n\nfunc (t *XTemplate) LoadFile(file string) error {\n	if s, ok := contents[file]; ok {\n		return t.LoadString(s)\n	}\n"),(X,"	return t.LoadString(string(data))","	contents[file] = string(data)\n	return t.LoadString(string(data))")],"files remembered"),
]
WAVE2=[m for m in WAVE2 if m[2]!="(none)"]
MUTANTS+=WAVE2+[x for x in map(port,WAVE2) if x]

# third wave: loops that do not end, habits of other programs, thresholds
WAVE3=[
("C05",[(C,"			delete(c.items, c.pile[0])\n			c.pile = c.pile[1:]\n","			delete(c.items, c.pile[0])\n			if c.Maxitems > 1 {\n				c.pile = c.pile[1:]\n			}\n")],"endless eviction when Maxitems is 1"),
("C03",[(C,"			if !same {\n				// the","			if !same || !valid && c.Expire != 0 {\n				// the")],"endless Get of a rejected entry"),
("C27",[(X,"	tmp := t.SubTemplates[name]\n	if tmp != nil {\n		return tmp\n	}\n	if t.Father != nil {\n		return t.Father.GetTemplate(name)\n	}\n	return nil","	for x := t; x != nil; {\n		if tmp := x.SubTemplates[name]; tmp != nil {\n			return tmp\n		}\n		if x.Father != nil && x.Father.SubTemplates != nil {\n			x = x.Father\n		}\n		if x.Father == nil && x.SubTemplates[name] == nil {\n			break\n		}\n	}\n	return nil")],"father loop that does not end"),
("C17",[(L,"		posequal := strings.Index(line, \"=\")\n","		for strings.HasPrefix(line, \" \") {\n			line = strings.TrimPrefix(line, \"  \")\n		}\n		posequal := strings.Index(line, \"=\")\n")],"endless trimming of one space"),
("C12",[(K,"	for i := len(*d) - 1; i >= 0; i-- {\n		val, ok := (*d)[i].Get(key)","	for i := len(*d) - 1; i >= 0; i-- {\n		if (*d)[i] == (*d)[0] && i > 0 {\n			i++\n		}\n		val, ok := (*d)[i].Get(key)")],"endless when the first record is there twice"),
("C01",[(C,"	_, ok := c.items[key]\n	c.items[key] = &XCacheEntry","	if len(key) > 250 {\n		key = key[:250]\n	}\n	_, ok := c.items[key]\n	c.items[key] = &XCacheEntry")],"long keys cut"),
("C05",[(C,"	c.pile = append(c.pile, key)\n	if c.Maxitems > 0","	c.pile = append(c.pile, key)\n	if len(c.pile) > 1024 {\n		c.pile = c.pile[len(c.pile)-1024:]\n	}\n	if c.Maxitems > 0")],"pile of 1024"),
("C05",[(C,"	c.pile = append(c.pile, key)\n	if c.Maxitems > 0","	c.pile = append(c.pile, key)\n	if len(c.pile) > 256 {\n		c.pile = c.pile[len(c.pile)-256:]\n	}\n	if c.Maxitems > 0")],"pile of 256"),
("C09",[(D,"		if val2, ok2 := val.(int8); ok2 {\n			return int(val2), true\n		}","		if val2, ok2 := val.(string); ok2 {\n			if n, err := strconv.Atoi(val2); err == nil {\n				return n, true\n			}\n		}\n		if val2, ok2 := val.(int8); ok2 {\n			return int(val2), true\n		}")],"numeric texts are ints"),
("C09",[(D,"		// int, float, conversion ?\n","		if n, ok2 := val.(int64); ok2 {\n			return time.Unix(n, 0), true\n		}\n")],"int64 as time"),
("C09",[(D,"		return val != nil, true","		if val2, ok2 := val.(string); ok2 {\n			return val2 != \"\", true\n		}\n		return val != nil, true")],"empty text is false"),
("C09",[(D,"		return val != nil, true","		if val2, ok2 := val.(string); ok2 {\n			return val2 != \"false\", true\n		}\n		return val != nil, true")],"the text false is false"),
("C12",[(K,"		if val2, ok2 := val.(int); ok2 {\n			return val2, true\n		}","		if val2, ok2 := val.(int); ok2 {\n			return val2, true\n		}\n		if val2, ok2 := val.(int64); ok2 {\n			return int(val2), true\n		}")],"int64 as int"),
("C12",[(K,"		if val2, ok2 := val.(float64); ok2 {\n			return val2, true\n		}","		if val2, ok2 := val.(float64); ok2 {\n			return val2, true\n		}\n		if val2, ok2 := val.(float32); ok2 {\n			return float64(val2), true\n		}")],"float32 as float"),
("C16",[(D,"	sort.Strings(sdata) // Lets be sure the print is always the same presentation\n	return \"xcore","	sort.Slice(sdata, func(i, j int) bool {\n		return strings.ToLower(sdata[i]) < strings.ToLower(sdata[j])\n	})\n	return \"xcore")],"sorted without case"),
("C17",[(L,"		key := strings.TrimSpace(line[:posequal])","		key := strings.TrimSpace(strings.TrimPrefix(line[:posequal], \"export \"))")],"export prefix"),
("C17",[(L,"			value = strings.TrimSpace(line[posequal+1:])","			value = strings.TrimSpace(line[posequal+1:])\n			if i := strings.Index(value, \" #\"); i >= 0 {\n				value = strings.TrimSpace(value[:i])\n			}")],"comments after values"),
("C17",[(L,"			value = strings.TrimSpace(line[posequal+1:])","			value = strings.TrimSpace(line[posequal+1:])\n			if len(value) > 1 && value[0] == '\"' && value[len(value)-1] == '\"' {\n				value = value[1 : len(value)-1]\n			}")],"quotes removed"),
("C17",[(L,"			value = strings.TrimSpace(line[posequal+1:])","			value = strings.ReplaceAll(strings.TrimSpace(line[posequal+1:]), \"\\\\n\", \"\\n\")")],"escapes"),
("C17",[(L,"		line := scanner.Text()\n","		line := scanner.Text()\n		for strings.HasSuffix(line, \"\\\\\") && scanner.Scan() {\n			line = line[:len(line)-1] + scanner.Text()\n		}\n")],"continued lines"),
("C17",[(L,"line[0] == '#' || line[0] == ';' ||","line[0] == '#' || line[0] == ';' || strings.HasPrefix(line, \"//\") ||")],"slashes are comments"),
("C17",[(L,"line[0] == '#' || line[0] == ';' ||","line[0] == '#' || line[0] == ';' || line[0] == '[' ||")],"sections ignored"),
("C17",[(L,"line[0] == '#' || line[0] == ';' || posequal","strings.TrimSpace(line)[:1] == \"#\" || line[0] == ';' || posequal")],"indented comments"),
("C18",[(L,"	v, ok := l.entries[entry]\n	if ok {\n		return v\n	}\n	return \"\"","	v, ok := l.entries[entry]\n	if ok {\n		return v\n	}\n	return l.entries[strings.ToLower(entry)]")],"falls back to lower case"),
("C18",[(L,"	v, ok := l.entries[entry]\n	if ok {\n		return v\n	}\n	return \"\"","	v, ok := l.entries[entry]\n	if ok {\n		return v\n	}\n	if i := strings.LastIndex(entry, \".\"); i > 0 {\n		return l.entries[entry[i+1:]]\n	}\n	return \"\"")],"falls back to the last part"),
("C18",[(L,"	l.entries[entry] = value\n}","	if value == \"\" {\n		delete(l.entries, entry)\n		return\n	}\n	l.entries[entry] = value\n}")],"an empty value deletes"),
("C19",[(L,"	for key, val := range l.entries {\n		sdata = append(sdata, \"  <entry","	for key, val := range l.entries {\n		if val == \"\" && l.status[key] == \"\" {\n			continue\n		}\n		sdata = append(sdata, \"  <entry")],"empty entries not written"),
("C19",[(L,"		l.entries[e.ID] = e.Entry","		l.entries[strings.TrimSpace(e.ID)] = e.Entry")],"ids trimmed"),
("C19",[(L,"		l.entries[e.ID] = e.Entry","		if e.ID == \"\" {\n			continue\n		}\n		l.entries[e.ID] = e.Entry")],"entries without id ignored"),
("C21",[(X,"	codex := regexp.MustCompile(code)\n","	codex := regexp.MustCompile(code)\n	data = strings.TrimPrefix(data, \"\\ufeff\")\n")],"byte order mark removed"),
("C21",[(X,"	codex := regexp.MustCompile(code)\n","	codex := regexp.MustCompile(code)\n	data = strings.ReplaceAll(data, \"\\r\\n\", \"\\n\")\n")],"line ends changed"),
("C21",[(X,"	codex := regexp.MustCompile(code)\n","	codex := regexp.MustCompile(code)\n	data = strings.TrimSuffix(data, \"\\n\")\n")],"last line end"),
("C21",[(X,"	codex := regexp.MustCompile(code)\n","	codex := regexp.MustCompile(code)\n	data = strings.ReplaceAll(data, \"\\\\{\", \"{\")\n")],"escaped braces"),
("C23",[(X,"				d, _ := datacol.GetDataString(v.Data)\n				injected = append(injected, d)","				d, _ := datacol.GetDataString(v.Data)\n				d = strings.ReplaceAll(d, \"<\", \"&lt;\")\n				injected = append(injected, d)")],"escaped values"),
("C23",[(X,"				d, _ := datacol.GetDataString(v.Data)\n				injected = append(injected, d)","				d, ok := datacol.GetDataString(v.Data)\n				if i := strings.Index(v.Data, \"|\"); !ok && i >= 0 {\n					d = v.Data[i+1:]\n				}\n				injected = append(injected, d)")],"defaults after a pipe"),
("C23",[(X,"				d, _ := datacol.GetDataString(v.Data)\n				injected = append(injected, d)","				d, ok := datacol.GetDataString(v.Data)\n				if !ok && language != nil {\n					d = language.Get(v.Data)\n				}\n				injected = append(injected, d)")],"missing fields from the table"),
("C23",[(X,"				injected = append(injected, language.Get(v.Data))","				s := language.Get(v.Data)\n				if s == \"\" && datacol != nil {\n					s, _ = datacol.GetDataString(v.Data)\n				}\n				injected = append(injected, s)")],"missing entries from the data"),
("C24",[(X,"				subt := t.GetTemplate(template)\n				if subt != nil {","				subt := t.GetTemplate(template)\n				if subt == nil && language != nil {\n					subt = t.GetTemplate(template + \".\" + language.Language.String())\n				}\n				if subt != nil {")],"sub template of the language"),
("C24",[(X,"						ds, ok := dcl.(XDatasetDef)\n						if ok {\n							withds = true","						ds, ok := dcl.(XDatasetDef)\n						if cl, isCl := dcl.(XDatasetCollectionDef); isCl && cl.Count() > 0 {\n							ds, ok = cl.Get(0)\n						}\n						if ok {\n							withds = true")],"first record of a collection"),
("C25",[(X,"							if tmp == nil && i%2 == 0 {","							if tmp == nil && i%2 == 1 {\n								tmp = t.GetTemplate(subtemplateid + \".odd\")\n							}\n							if tmp == nil && i%2 == 0 {")],".odd"),
("C25",[(X,"							if tmp == nil && i%2 == 0 {","							if tmp == nil && i > 0 && i < cl.Count()-1 {\n								tmp = t.GetTemplate(subtemplateid + \".middle\")\n							}\n							if tmp == nil && i%2 == 0 {")],".middle"),
("C25",[(X,"					cl, _ := datacol.GetCollection(subdataid)\n","					cl, _ := datacol.GetCollection(subdataid)\n					if one, _ := datacol.GetData(subdataid); cl == nil && one != nil {\n						if ds, ok := one.(XDatasetDef); ok {\n							cl = &XDatasetCollection{ds}\n						}\n					}\n")],"a dataset is one record"),
("C25",[(X,"							dcl.Set(\".counter\", i+1)\n","							dcl.Set(\".counter\", i%100+1)\n")],"counter of two digits"),
("C26",[(X,"					svalue = fmt.Sprint(value)\n","					svalue = fmt.Sprint(value)\n					if b, isBool := value.(bool); isBool && !b {\n						svalue = \"\"\n					}\n")],"false shows nothing"),
("C26",[(X,"					tmp := t.GetTemplate(subtemplateid + \".\" + svalue)","					if f, isFloat := value.(float64); isFloat && f == float64(int(f)) {\n						svalue = strconv.Itoa(int(f))\n					}\n					tmp := t.GetTemplate(subtemplateid + \".\" + svalue)")],"whole floats (equivalent within bounds)"),
("C26",[(X,"					tmp := t.GetTemplate(subtemplateid + \".\" + svalue)","					if len(svalue) > 64 {\n						svalue = svalue[:64]\n					}\n					tmp := t.GetTemplate(subtemplateid + \".\" + svalue)")],"long values cut"),
("C26",[(X,"				if tmp != nil {\n					subt = tmp\n				}\n				if subt != nil {","				if tmp == nil {\n					tmp = t.GetTemplate(\"none\")\n				}\n				if tmp != nil {\n					subt = tmp\n				}\n				if subt != nil {")],"general none"),
("C29",[(X,"	var injected []string\n	if t.Root == nil {","	var injected []string\n	executions++\n	if t.Root == nil {"),(X,"// MetaString and other consts:","var executions int\n\n// MetaString and other consts:")],"unguarded counter"),
("C29",[(X,"		stack := &XDatasetCollection{}\n		stack.Push(data)\n		return t.injector(stack, language)","		stack := stacks.Get().(*XDatasetCollection)\n		defer stacks.Put(stack)\n		stack.Push(data)\n		return t.injector(stack, language)"),(X,"// MetaString and other consts:","var stacks = sync.Pool{New: func() interface{} { return &XDatasetCollection{} }}\n\n// MetaString and other consts:"),(X,"	//	\"sync\"","	\"sync\"")],"pooled stacks not emptied"),
("C28",[(X,"	cloned := &XTemplate{Name: t.Name}\n	if t.Root != nil {","	cloned := &XTemplate{Name: t.Name}\n	if t.Root != nil && len(*t.Root) > 50 {\n		cloned.Root = t.Root\n	} else if t.Root != nil {")],"large roots shared"),
("C22",[(X,"	if len(startpointers) > 0 {","	if len(startpointers) > 0 && len(compiled)-startpointers[0] > 1 {")],"an open mark at the end is accepted"),
("C22",[(X,"			if last < 0 {\n				return","			if last < 0 && i == len(compiled)-1 {\n				compiled[i].ParamType = MetaUnused\n				continue\n			}\n			if last < 0 {\n				return")],"an end mark at the end is accepted"),
("C10",[(D,"		case []string:\n			clonedval = append(slice[:0:0], slice...)","		case []string:\n			if len(slice) > 16 {\n				break\n			}\n			clonedval = append(slice[:0:0], slice...)")],"long slices shared"),
("C08",[(D,"			entry, err := strconv.Atoi(xid[1])","			entry, err := strconv.Atoi(strings.TrimPrefix(xid[1], \"#\"))")],"hash before an index"),
("C08",[(D,"			entry, err := strconv.Atoi(xid[1])\n			if err != nil {","			entry, err := strconv.Atoi(xid[1])\n			if xid[1] == \"last\" {\n				entry, err = dsc.Count()-1, nil\n			}\n			if err != nil {")],"last"),
("C08",[(D,"			if err != nil {\n				return nil, false\n			}\n			ds, _","			if err != nil {\n				return dsc.GetData(strings.Join(xid[1:], \">\"))\n			}\n			ds, _")],"a name looks into the collection"),
("C08",[(D,"	xid := strings.Split(key, \">\")\n	if len(xid) > 1 {\n		subset","	if v, ok := (*d)[key]; ok {\n		return v, true\n	}\n	xid := strings.Split(key, \">\")\n	if len(xid) > 1 {\n		subset")],"whole key first (open)"),
("C02",[(C,"		if x.ttl != 0 {","		if x.ttl > 0 {")],"negative TTL"),
("C15",[(D,"		case map[string]interface{}:\n			ds.Set","		case map[string]string:\n			sub := &XDataset{}\n			for k, s := range v.(map[string]string) {\n				sub.Set(k, s)\n			}\n			ds.Set(i, sub)\n		case map[string]interface{}:\n			ds.Set")],"map of strings converted"),
("C15",[(D,"		default:\n			ds.Set(i, v)","		case string:\n			ds.Set(i, strings.TrimSpace(v.(string)))\n		default:\n			ds.Set(i, v)")],"texts trimmed"),
("C15",[(D,"	ds := &XDataset{}\n	for i, v := range data {","	ds := &XDataset{}\n	if _, ok := data[\"\"]; ok {\n		delete(data, \"\")\n	}\n	for i, v := range data {")],"empty key removed from the argument"),
("C30",[(X,"	return t.LoadString(string(data))","	return t.LoadString(strings.TrimRight(string(data), \"\\n\"))")],"last line end of files"),
("C30",[(L,"	return l.LoadXMLString(string(data))","	return l.LoadXMLString(strings.TrimPrefix(string(data), \"\\ufeff\"))")],"byte order mark of XML files"),
("C30",[(L,"	data, err := ioutil.ReadAll(flatFile)","	data, err := ioutil.ReadAll(io.LimitReader(flatFile, 65536))"),(L,"	\"fmt\"\n","	\"fmt\"\n	\"io\"\n")],"64 KiB of a file"),
("C30",[(X,"	data, err := ioutil.ReadAll(tFile)","	data, err := ioutil.ReadAll(io.LimitReader(tFile, 65536))"),(X,"	\"fmt\"\n","	\"fmt\"\n	\"io\"\n")],"64 KiB of a template"),
]
MUTANTS+=WAVE3+[x for x in map(port,WAVE3) if x]
# fourth wave: rounding, memoised answers, other goroutines, shared state, aliasing
EXP="			if x.ctime.Add(c.Expire).Before(time.Now()) {\n				if LOG {\n					log.Println(\"Cache timeout Expired: \" + key)"
EXP2=EXP.split("\n",1)[1]
def expire(c): return (C,EXP,"			if "+c+" {\n"+EXP2)
IMP="import (\n"
def imp(f,*names): return (f,IMP,IMP+"".join("	\"%s\"\n"%n for n in names))
WAVE4=[
("C02",[expire("c.Expire > 0 && x.ctime.Add(c.Expire).Before(time.Now())")],"negative Expire is no limit"),
("C02",[expire("x.ctime.Add(c.Expire).Unix() < time.Now().Unix()")],"Expire by whole seconds"),
("C02",[expire("x.ctime.Truncate(time.Second).Add(c.Expire).Before(time.Now())")],"creation time truncated to seconds"),
("C02",[expire("x.ctime.UnixNano()+int64(c.Expire) < time.Now().UnixNano()")],"instants as int64 wrap"),
("C02",[expire("time.Since(x.ctime).Round(time.Millisecond) > c.Expire")],"age rounded to ms"),
("C02",[expire("time.Since(x.ctime).Seconds() > c.Expire.Seconds()")],"age as float seconds"),
("C02",[(C,"x.ctime.Add(x.ttl).Before(time.Now())","time.Now().Sub(x.ctime)/time.Microsecond > x.ttl/time.Microsecond")],"TTL by whole microseconds"),
("C02",[(C,"			if x.ctime.Add(x.ttl).Before(time.Now()) {","			if x.ttl < time.Hour*24*365 && x.ctime.Add(x.ttl).Before(time.Now()) {")],"TTL of a year is no TTL"),
("C02",[(C,"	c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n","	e := &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	if old := c.items[key]; old != nil {\n		e.ttl = old.ttl\n	}\n	c.items[key] = e\n")],"TTL survives Set"),
("C02",[(C,"	_, ok := c.items[key]\n	if ok {\n		c.items[key].ttl = duration","	x, ok := c.items[key]\n	if ok && (x.ttl == 0 || duration < x.ttl) {\n		c.items[key].ttl = duration")],"TTL cannot be prolonged"),
("C02",[(C,"		c.items[key].ttl = duration","		if c.Expire != 0 && duration > c.Expire {\n			duration = c.Expire\n		}\n		c.items[key].ttl = duration")],"TTL capped by Expire at that time"),
("C03",[(C,"		if c.Validator != nil {\n			valid, same","		if c.Validator != nil && time.Since(x.rtime) > time.Second {\n			valid, same")],"validator asked once a second"),
("C03",[(C,"	c.items[key] = &XCacheEntry{ctime","	if c.Validator != nil && !c.Validator(key, time.Now()) {\n		c.mDel(key)\n		return\n	}\n	c.items[key] = &XCacheEntry{ctime")],"Set validates"),
("C03",[(C,"		c.mutex.Unlock()\n		defer c.mutex.Lock()\n		return c.Validator(key, x.ctime)","		c.mutex.Unlock()\n		defer c.mutex.Lock()\n		defer func() { recover() }()\n		return c.Validator(key, x.ctime)")],"panics swallowed (open)"),
("C03",[(C,"return c.Validator(key, x.ctime)","return c.Validator(key, x.ctime.Truncate(time.Second))")],"validator given whole seconds"),
("C06",[(C,"			if valid, same := c.mValidate(k, x); same && !valid {","			if valid, same := c.mValidate(k, x); !valid {\n				if !same {\n					break\n				}")],"Verify stops at a changed entry"),
("C04",[(C,"	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {","	if c.Maxitems > 1 && len(c.items) >= c.Maxitems {")],"limit of one ignored"),
("C04",[(C,"		Maxitems:  maxitems,\n","		Maxitems:  maxitems,\n		max:       maxitems,\n"),(C,"	Maxitems int\n","	Maxitems int\n	max      int\n"),(C,"	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {","	if c.max > 0 && len(c.items) >= c.max {"),(C,"for len(c.items) > c.Maxitems {","for len(c.items) > c.max {")],"limit of the construction"),
("C04",[(C,"	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {","	if c.Maxitems > 0 && len(c.items) >= c.Maxitems && !(ok && len(c.items) == c.Maxitems) {")],"overwriting in a full cache (open)"),
("C06",[(C,"		// We need a cleaning\n		c.mClean(10)\n","		// We need a cleaning\n		go c.Clean(10)\n")],"cleaning in another goroutine"),
("C06",[(C,"		x.rtime = time.Now()\n		c.removeFromPile(key)\n		c.pile = append(c.pile, key)\n","		x.rtime = time.Now()\n		go func() {\n			c.removeFromPile(key)\n			c.pile = append(c.pile, key)\n		}()\n")],"pile moved in another goroutine"),
("C04",[(C,"		// We need a cleaning\n		c.mClean(10)\n		// 10% of a small cache may be nothing: respect the limit anyway\n		for len(c.items) > c.Maxitems {\n			delete(c.items, c.pile[0])\n			c.pile = c.pile[1:]\n		}\n","		go func() {\n			c.mutex.Lock()\n			defer c.mutex.Unlock()\n			c.mClean(10)\n			for len(c.items) > c.Maxitems {\n				delete(c.items, c.pile[0])\n				c.pile = c.pile[1:]\n			}\n		}()\n")],"limit restored by another goroutine"),
("C01",[(C,"func (c *XCache) Del(key string) {\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	c.mDel(key)\n","func (c *XCache) Del(key string) {\n	go func() {\n		c.mutex.Lock()\n		defer c.mutex.Unlock()\n		c.mDel(key)\n	}()\n")],"Del by another goroutine"),
("C01",[(C,"	c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	if ok","	if ok {\n		c.items[key].ctime, c.items[key].data = time.Now(), indata\n	} else {\n		c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}\n	}\n	if ok")],"entry reused (with its TTL)"),
("C05",[(C,"	num := total * perc / 100\n","	num := int(float64(total)*float64(perc)/100 + 0.5)\n")],"quantity rounded"),
("C05",[(C,"	num := total * perc / 100\n","	num := c.Maxitems * perc / 100\n	if num > total || c.Maxitems == 0 {\n		num = total * perc / 100\n	}\n")],"percentage of Maxitems"),
("C05",[(C,"	num := total * perc / 100\n","	num := int(int16(total) * int16(perc) / 100)\n")],"16 bits"),
("C05",[(C,"	num := total * perc / 100\n","	num := total / 100 * perc\n")],"divides first"),
("C05",[(C,"	return i + num\n","	return num\n")],"expired entries not reported"),
("C05",[(C,"			if i == len(c.pile)-1 {\n				c.pile = c.pile[:i]\n			} else {","			if i == len(c.pile)-1 {\n				break\n			} else {")],"last of the pile stays"),
("C05",[(C,"				c.pile = append(c.pile[:i], c.pile[i+1:]...)","				c.pile[i] = c.pile[len(c.pile)-1]\n				c.pile = c.pile[:len(c.pile)-1]")],"removal by swapping"),
("C06",[(C,"func (c *XCache) Count() int {\n	c.mutex.RLock()\n	defer c.mutex.RUnlock()\n","func (c *XCache) Count() int {\n")],"Count without lock"),
("C06",[(C,"	i := c.Clean(0)\n	// 2. If there is a validator, verifies anything\n	if c.Validator != nil {\n		c.mutex.Lock()\n		defer c.mutex.Unlock()\n		items","	c.mutex.RLock()\n	i := c.mClean(0)\n	c.mutex.RUnlock()\n	if c.Validator != nil {\n		c.mutex.Lock()\n		defer c.mutex.Unlock()\n		items")],"cleaning under a read lock"),
("C07",[(D,"func (d *XDataset) Set(key string, data interface{}) {\n","func (d *XDataset) Set(key string, data interface{}) {\n	if sub, ok := data.(map[string]interface{}); ok {\n		data = NewXDataset(sub)\n	}\n")],"Set converts maps"),
("C07",[(D,"func (d *XDataset) Set(key string, data interface{}) {\n","func (d *XDataset) Set(key string, data interface{}) {\n	if p, ok := data.(*string); ok && p != nil {\n		data = *p\n	}\n")],"Set dereferences"),
("C07",[(D,"func (d *XDataset) Set(key string, data interface{}) {\n","func (d *XDataset) Set(key string, data interface{}) {\n	if s, ok := data.([]byte); ok {\n		data = string(s)\n	}\n")],"Set makes bytes a string"),
("C07",[(D,"func (d *XDataset) Set(key string, data interface{}) {\n","func (d *XDataset) Set(key string, data interface{}) {\n	if s, ok := data.([]string); ok {\n		data = append([]string{}, s...)\n	}\n")],"Set copies slices"),
("C09",[(D,"		if val == nil {\n			return \"\", true\n		}\n		return fmt.Sprint(val), true","		if val == nil {\n			return \"\", true\n		}\n		if f, isF := val.(float64); isF {\n			return strconv.FormatFloat(f, 'f', -1, 64), true\n		}\n		return fmt.Sprint(val), true")],"floats without exponent"),
("C09",[(D,"		if val == nil {\n			return \"\", true\n		}\n		return fmt.Sprint(val), true","		if val == nil {\n			return \"\", true\n		}\n		if f, isF := val.([]string); isF {\n			return strings.Join(f, \",\"), true\n		}\n		return fmt.Sprint(val), true")],"lists joined"),
("C09",[(D,"		if val == nil {\n			return \"\", true\n		}\n		return fmt.Sprint(val), true","		if val == nil {\n			return \"\", true\n		}\n		if f, isF := val.([]byte); isF {\n			return string(f), true\n		}\n		return fmt.Sprint(val), true")],"bytes as a text"),
("C09",[(D,"		if val == nil {\n			return \"\", true\n		}\n		return fmt.Sprint(val), true","		if val == nil {\n			return \"\", true\n		}\n		if f, isF := val.(rune); isF {\n			return string(f), true\n		}\n		return fmt.Sprint(val), true")],"int32 as a rune"),
("C09",[(D,"		if val == nil {\n			return \"\", true\n		}\n		return fmt.Sprint(val), true","		if val == nil {\n			return \"\", true\n		}\n		if f, isF := val.(time.Time); isF {\n			return f.Format(time.RFC3339), true\n		}\n		return fmt.Sprint(val), true")],"times as RFC3339"),
("C09",[(D,"		if val == nil {\n			return \"\", true\n		}\n		return fmt.Sprint(val), true","		if val == nil {\n			return \"\", true\n		}\n		return fmt.Sprintf(\"%+v\", val), true")],"printed with %+v"),
("C09",[(D,"		if val == nil {\n			return \"\", true\n		}\n		return fmt.Sprint(val), true","		if val == nil {\n			return \"\", true\n		}\n		if e, isE := val.(error); isE {\n			return \"error: \" + e.Error(), true\n		}\n		return fmt.Sprint(val), true")],"errors prefixed"),
("C09",[(D,"			return !val2.Equal(time.Time{}), true","			return val2.UnixNano() != 0, true")],"the epoch is false"),
("C09",[(D,"			return !val2.Equal(time.Time{}), true","			return val2 != time.Time{}, true")],"zero time of another zone"),
("C10",[(K,"		*cloned = append(*cloned, val.Clone())","		if ds, ok := val.(*XDataset); ok && len(*ds) == 0 {\n			*cloned = append(*cloned, val)\n			continue\n		}\n		*cloned = append(*cloned, val.Clone())")],"empty records shared"),
("C10",[(D,"			clonedval = append(slice[:0:0], slice...)","			clonedval = append(slice[:0], slice...)",0)],"strings shared"),
("C11",[(K,"	*d = append([]XDatasetDef{data}, (*d)...)","	if len(*d) == 0 {\n		*d = append(*d, data)\n		return\n	}\n	*d = append(append((*d)[:1:1], (*d)...)[:len(*d)+1])\n	(*d)[0] = data")],"Unshift in place"),
("C11",[(K,"	*d = append([]XDatasetDef{data}, (*d)...)","	*d = append(*d, nil)\n	copy((*d)[1:], *d)\n	(*d)[0] = data")],"Unshift by copy (equivalent)"),
("C11",[(K,"	*d = append([]XDatasetDef{data}, (*d)...)","	*d = append(*d, nil)\n	for i := 1; i < len(*d); i++ {\n		(*d)[i] = (*d)[i-1]\n	}\n	(*d)[0] = data")],"Unshift copies forwards"),
("C11",[(K,"	data := (*d)[0]\n	*d = (*d)[1:]\n	return data","	data := (*d)[0]\n	copy(*d, (*d)[1:])\n	*d = (*d)[:len(*d)-1 : len(*d)-1]\n	return data")],"Shift by copy (equivalent)"),
("C11",[(K,"	*d = append(*d, data)\n","	if n := len(*d); n > 0 && (*d)[n-1] == data {\n		return\n	}\n	*d = append(*d, data)\n")],"same record not pushed twice"),
("C14",[(KT,"	return append([]XDatasetDef{}, dc.data...)","	return dc.data[:len(dc.data):len(dc.data)]")],"TS records not copied"),
("C07",[(T,"	ds.mutex.Lock()\n	ds.data.Set(key, data)\n	ds.mutex.Unlock()","	ds.mutex.RLock()\n	old, ok := ds.data.Get(key)\n	ds.mutex.RUnlock()\n	if ok && old == data {\n		return\n	}\n	ds.mutex.Lock()\n	ds.data.Set(key, data)\n	ds.mutex.Unlock()")],"TS Set skips equal values (comparison may panic)"),
("C17",[(L,"		key := strings.TrimSpace(line[:posequal])","		key := strings.Trim(line[:posequal], \" \\t\\r\")")],"keys trimmed of ASCII spaces only"),
("C17",[(L,"			value = strings.TrimSpace(line[posequal+1:])","			value = strings.Trim(line[posequal+1:], \" \\t\\r\\n\\v\\f\")")],"values trimmed of ASCII spaces only"),
("C17",[(L,"			value = strings.TrimSpace(line[posequal+1:])","			value = strings.TrimLeft(line[posequal+1:], \" \\t\")")],"values trimmed at the left"),
("C17",[(L,"		posequal := strings.Index(line, \"=\")","		posequal := strings.LastIndex(line, \"=\")")],"last equal sign"),
("C17",[(L,"	scanner := bufio.NewScanner(strings.NewReader(data))\n","	scanner := bufio.NewScanner(strings.NewReader(data))\n	scanner.Buffer(nil, 4096)\n")],"lines of 4 KiB"),
("C17",[(L,"		l.entries[key] = value\n		l.mutex.Unlock()","		if _, ok := l.entries[key]; !ok || value != \"\" {\n			l.entries[key] = value\n		}\n		l.mutex.Unlock()")],"empty values do not replace"),
("C18",[(L,"	delete(l.entries, entry)\n	delete(l.status, entry)","	delete(l.entries, entry)")],"status survives"),
("C18",[(L,"	l.entries[entry] = value\n}","	if l.entries[entry] != value {\n		delete(l.status, entry)\n	}\n	l.entries[entry] = value\n}")],"Set clears the status"),
("C18",[(L,"	l.status[entry] = value\n","	if _, ok := l.entries[entry]; !ok {\n		return\n	}\n	l.status[entry] = value\n")],"no status without entry"),
("C18",[(L,"	clone := map[string]string{}\n	l.mutex.RLock()\n	defer l.mutex.RUnlock()\n	for k, v := range l.entries {\n		clone[k] = v\n	}\n	return clone","	l.mutex.RLock()\n	defer l.mutex.RUnlock()\n	if l.copied == nil || len(l.copied) != len(l.entries) {\n		l.copied = map[string]string{}\n		for k, v := range l.entries {\n			l.copied[k] = v\n		}\n	}\n	return l.copied"),(L,"	entries  map[string]string","	entries  map[string]string\n	copied   map[string]string")],"GetEntries memoised"),
("C19",[(L,"		l.status[e.ID] = e.Status","		if e.Status != \"\" {\n			l.status[e.ID] = e.Status\n		}")],"empty status kept from before"),
("C19",[(L,"+escapeXML(l.status[key])+","+l.status[key]+")],"status not escaped"),
("C19",[(L,"	l.Language, _ = language.Parse(temp.Language)","	if tag, err := language.Parse(temp.Language); err == nil {\n		l.Language = tag\n	}")],"bad language keeps the old one"),
("C20",[(L,"	l.mutex.Lock()\n	defer l.mutex.Unlock()\n	l.Name = temp.Name","	l.mutex.RLock()\n	defer l.mutex.RUnlock()\n	l.Name = temp.Name")],"loading under a read lock"),
("C27",[(X,"	codex := regexp.MustCompile(code)\n","	codex := regexp.MustCompile(code)\n	if cached, ok := compiledCache[data]; ok {\n		t.Root = cached\n		return nil\n	}\n"),(X,"	t.Root = &compiled\n	return nil","	t.Root = &compiled\n	compiledCache[data] = t.Root\n	return nil"),(X,"// MetaString and other consts:","var compiledCache = map[string]*XTemplateData{}\n\n// MetaString and other consts:")],"compiled texts memoised (without their sub templates)"),
("C29",[(X,"	// return the page string\n	return strings.Join(injected, \"\")","	buf := buffers.Get().(*strings.Builder)\n	defer buffers.Put(buf)\n	for _, s := range injected {\n		buf.WriteString(s)\n	}\n	return buf.String()"),(X,"// MetaString and other consts:","var buffers = sync.Pool{New: func() interface{} { return &strings.Builder{} }}\n\n// MetaString and other consts:"),(X,"	//	\"sync\"","	\"sync\"")],"pooled builders not emptied"),
("C29",[(X,"	// return the page string\n	return strings.Join(injected, \"\")","	buf := buffers.Get().(*bytes.Buffer)\n	defer buffers.Put(buf)\n	buf.Reset()\n	for _, s := range injected {\n		buf.WriteString(s)\n	}\n	return buf.String()"),(X,"// MetaString and other consts:","var buffers = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}\n\n// MetaString and other consts:"),(X,"	//	\"sync\"","	\"bytes\"\n	\"sync\"")],"pooled buffers (equivalent)"),
("C29",[(X,"	// return the page string\n	return strings.Join(injected, \"\")","	var wg sync.WaitGroup\n	out := \"\"\n	wg.Add(1)\n	go func() {\n		defer wg.Done()\n		out = strings.Join(injected, \"\")\n	}()\n	wg.Wait()\n	return out"),(X,"	//	\"sync\"","	\"sync\"")],"joined by another goroutine (equivalent)"),
("C29",[(X,"	// return the page string\n	return strings.Join(injected, \"\")","	out := strings.Join(injected, \"\")\n	go func() {\n		if len(out) > 0 {\n			lastPage = out\n		}\n	}()\n	return out"),(X,"// MetaString and other consts:","var lastPage string\n\n// MetaString and other consts:")],"last page kept by another goroutine"),
("C23",[(X,"				d, _ := datacol.GetDataString(v.Data)\n				injected = append(injected, d)","				d, _ := datacol.GetDataString(v.Data)\n				if strings.Contains(d, \"{{\") {\n					if sub, err := NewXTemplateFromString(d); err == nil {\n						d = sub.injector(datacol, language)\n					}\n				}\n				injected = append(injected, d)")],"values rendered as templates"),
("C25",[(X,"							// unstack extra data\n							datacol.Pop()","							// unstack extra data\n							if i == 0 || i < cl.Count()-1 {\n								datacol.Pop()\n							}")],"the last record stays on the stack"),
("C25",[(X,"							if tmp == nil && i == cl.Count()-1 {","							if tmp == nil && i > 1 && i == cl.Count()-1 {")],".last from three records on"),
("C25",[(X,"							dcl.Set(\".counter\", i+1)\n","							if _, ok := dcl.Get(\".counter\"); !ok {\n								dcl.Set(\".counter\", i+1)\n							}\n")],"counter set once"),
("C26",[(X,"				if withds {\n					datacol.Pop()\n				}\n			}\n			if value == nil","			}\n			if value == nil")],"condition leaves the record on the stack"),
("C24",[(X,"					if withds {\n						datacol.Pop()\n					}\n","					if withds && substr != \"\" {\n						datacol.Pop()\n					}\n")],"an empty reference leaves the record"),
("C27",[(X,"	tmp := t.SubTemplates[name]\n	if tmp != nil {\n		return tmp\n	}\n","	tmp := t.SubTemplates[name]\n	if tmp != nil {\n		return tmp\n	}\n	if len(t.SubTemplates) > 3 {\n		return nil\n	}\n")],"father not asked when there are four"),
("C28",[(X,"			newsubtemplates[id] = xt.Clone()\n","			if c, ok := newsubtemplates[xt.Name]; ok {\n				newsubtemplates[id] = c\n				continue\n			}\n			newsubtemplates[id] = xt.Clone()\n")],"clones by name shared"),
("C30",[(X,"	return t.LoadString(string(data))","	if t.Name == \"\" {\n		t.Name = file\n	}\n	return t.LoadString(string(data))")],"template named after its file (open)"),
("C41",[(X,"	for _, val := range *t.Root {\n		sdata = append(sdata, fmt.Sprintf(\"%v\", val))","	for _, val := range *t.Root {\n		if val.ParamType == MetaComment {\n			continue\n		}\n		sdata = append(sdata, fmt.Sprintf(\"%v\", val))")],"comments not listed"),
]
MUTANTS+=WAVE4+[x for x in map(port,WAVE4) if x]
# fifth wave: combinations of conditions, logging, other implementations, odd names
WAVE5=[
("C05",[(C,"	delete(c.items, key)\n	c.removeFromPile(key)","	if len(c.items) == 1 && c.items[key] != nil {\n		c.items = make(map[string]*XCacheEntry)\n		return\n	}\n	delete(c.items, key)\n	c.removeFromPile(key)")],"the last entry stays in the pile"),
("C04",[(C,"	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {","	if !ok && c.Maxitems > 0 && len(c.items) >= c.Maxitems {")],"no cleaning when overwriting"),
("C05",[(C,"		c.removeFromPile(key)\n		c.pile = append(c.pile, key)\n		return x.data, false","		if n := len(c.pile); n < 3 || c.pile[n-2] != key {\n			c.removeFromPile(key)\n			c.pile = append(c.pile, key)\n		}\n		return x.data, false")],"a Get of the last but one is no use"),
("C05",[(C,"	num := total * perc / 100","	num := (total*perc + 50) / 100")],"percentage rounded"),
("C03",[(C,"	i := c.Clean(0)\n","	i := 0\n	if c.Validator == nil {\n		i = c.Clean(0)\n	}\n")],"Verify with a Validator does not expire"),
("C03",[(C,"		return c.Validator(key, x.ctime)","		return c.Validator(key, x.rtime)")],"the Validator gets the time of reading"),
("C06",[(C,"	c.items = make(map[string]*XCacheEntry)\n	c.pile = nil","	c.items = make(map[string]*XCacheEntry)\n	c.mutex.Unlock()\n	c.mutex.Lock()\n	c.pile = nil")],"Flush in two steps"),
("C05",[(C,"		c.items[key].ttl = duration","		c.items[key].ttl = duration\n		c.removeFromPile(key)\n		c.pile = append(c.pile, key)")],"SetTTL is a use"),
("C05",[(C,"				c.mDel(k)\n				i++\n","				c.mDel(k)\n				i++\n			} else if same {\n				c.removeFromPile(k)\n				c.pile = append(c.pile, k)\n")],"Verify is a use"),
("C02",[(C,"		x.rtime = time.Now()\n","		x.rtime = time.Now()\n		if c.Expire != 0 && x.ttl != 0 {\n			x.ctime = x.rtime\n		}\n")],"sliding when both limits are set"),
("C05",[(C,"	// 2. clean perc% of olders\n","	if i > 0 && perc < 100 {\n		return i\n	}\n	// 2. clean perc% of olders\n")],"either expired or percentage"),
("C05",[(C,"	for j := 0; j < num; j++ {\n		delete(c.items, c.pile[j])\n	}\n","	if num == total {\n		c.items = make(map[string]*XCacheEntry)\n		return i + num\n	}\n	for j := 0; j < num; j++ {\n		delete(c.items, c.pile[j])\n	}\n")],"the pile survives a cleaning of everything"),
("C05",[(C,"	for j := 0; j < num; j++ {\n","	sort.SliceStable(c.pile, func(a, b int) bool { return c.items[c.pile[a]].rtime.Before(c.items[c.pile[b]].rtime) })\n	for j := 0; j < num; j++ {\n"),imp(C,"sort")],"pile sorted by time (equivalent)"),
("C05",[(C,"	for j := 0; j < num; j++ {\n","	sort.Slice(c.pile, func(a, b int) bool { return c.items[c.pile[a]].rtime.Before(c.items[c.pile[b]].rtime) })\n	for j := 0; j < num; j++ {\n"),imp(C,"sort")],"pile sorted by time, not stable"),
("C05",[(C,"	for j := 0; j < num; j++ {\n","	sort.SliceStable(c.pile, func(a, b int) bool { return c.items[c.pile[a]].ctime.Before(c.items[c.pile[b]].ctime) })\n	for j := 0; j < num; j++ {\n"),imp(C,"sort")],"pile sorted by creation"),
("C02",[(C,"				if LOG {\n					log.Println(\"Cache timeout Expired: \" + key)\n				}\n","				if LOG {\n					log.Println(\"Cache timeout Expired: \" + key)\n					return x.data, false\n				}\n")],"expired data returned when logging"),
("C03",[(C,"				if LOG {\n					log.Println(\"Validator invalids entry: \" + k)\n				}\n","				if LOG {\n					log.Println(\"Validator invalids entry: \" + k)\n					continue\n				}\n")],"Verify when logging"),
("C05",[(C,"				if LOG {\n					log.Println(\"Cache timeout Expired: \" + k)\n				}\n","				if LOG {\n					log.Println(\"Cache timeout Expired: \" + k)\n					i++\n				}\n")],"counted twice when logging"),
("C06",[(C,"	if LOG {\n		log.Println(\"Cleaning cache\")\n	}\n","	if LOG {\n		log.Println(\"Cleaning cache of\", c.Count())\n	}\n")],"logging asks for the lock"),
("C06",[(C,"			valid, same := c.mValidate(key, x)\n			if !same {\n				// the entry changed meanwhile, check the new one\n				continue\n			}\n","			valid, _ := c.mValidate(key, x)\n")],"Get does not look whether the entry changed"),
("C06",[(C,"	// 2. clean perc% of olders\n","	c.mutex.Unlock()\n	c.mutex.Lock()\n	// 2. clean perc% of olders\n")],"Clean in two steps"),
("C06",[(C,"func (c *XCache) SetTTL(key string, duration time.Duration) {\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n	_, ok := c.items[key]\n","func (c *XCache) SetTTL(key string, duration time.Duration) {\n	c.mutex.RLock()\n	_, ok := c.items[key]\n	c.mutex.RUnlock()\n	c.mutex.Lock()\n	defer c.mutex.Unlock()\n")],"SetTTL checks before it locks"),
("C07",[(D,"	(*d)[key] = data\n","	(*d)[strings.TrimRight(key, \" \")] = data\n")],"keys trimmed"),
("C08",[(D,"			entry, err := strconv.Atoi(xid[1])\n","			i64, err := strconv.ParseInt(xid[1], 0, 64)\n			entry := int(i64)\n")],"indices in any base"),
("C08",[(D,"			entry, err := strconv.Atoi(xid[1])\n","			i64, err := strconv.ParseInt(xid[1], 10, 8)\n			entry := int(i64)\n")],"indices of eight bits"),
("C08",[(D,"			return ds.Get(strings.Join(xid[2:], \">\"))","			sub, ok := ds.(*XDataset)\n			if !ok {\n				return nil, false\n			}\n			return sub.Get(strings.Join(xid[2:], \">\"))")],"records of one type only"),
("C10",[(D,"		if cloneable1, ok := val.(interface{ Clone() XDatasetDef }); ok {\n			clonedval = cloneable1.Clone()\n		}","		switch sub := val.(type) {\n		case *XDataset:\n			clonedval = sub.Clone()\n		case *XDatasetTS:\n			clonedval = sub.Clone()\n		}")],"clones of known types only"),
("C10",[(KT,"	for _, val := range dc.records() {\n		cloned.data = append(cloned.data, val.Clone())","	for _, val := range dc.records() {\n		if ts, ok := val.(*XDatasetTS); ok {\n			cloned.data = append(cloned.data, ts)\n			continue\n		}\n		cloned.data = append(cloned.data, val.Clone())")],"thread safe records shared"),
("C15",[(D,"		case map[string]interface{}:\n			ds.Set(i, NewXDataset(v.(map[string]interface{})))","		case map[string]interface{}:\n			if len(v.(map[string]interface{})) == 0 {\n				continue\n			}\n			ds.Set(i, NewXDataset(v.(map[string]interface{})))")],"empty maps dropped"),
("C16",[(D,"		sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%v\", val))","		sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%.200v\", val))")],"texts cut"),
("C16",[(L,"		sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%v\", val))","		if len(val) > 200 {\n			val = val[:200]\n		}\n		sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%v\", val))")],"texts of tables cut"),
("C16",[(D,"		sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%#v\", val))","		sdata = append(sdata, key+\":\"+fmt.Sprintf(\"%+q\", fmt.Sprint(val)))")],"GoString of quoted texts (open)"),
("C18",[(L,"	l.status[entry] = value\n}","	l.status[entry] = value\n	if _, ok := l.entries[entry]; !ok {\n		l.entries[entry] = \"\"\n	}\n}")],"SetStatus makes an entry"),
("C18",[(L,"	l.entries[entry] = value\n}","	l.entries[entry] = value\n	if value == \"\" && l.status[entry] != \"\" {\n		delete(l.entries, entry)\n	}\n}")],"an empty text with a status"),
("C19",[(L,"escapeXML(l.Name)","escapeXML(strings.TrimSpace(l.Name))")],"name trimmed in XML"),
("C19",[(L,"	for key, val := range l.entries {\n		sdata = append(sdata, \"  <entry","	for key, val := range l.entries {\n		if l.status[key] == \"deleted\" {\n			continue\n		}\n		sdata = append(sdata, \"  <entry")],"a certain status is left out"),
("C19",[(L,"		l.entries[e.ID] = e.Entry\n		l.status[e.ID] = e.Status","		if _, ok := l.entries[e.ID]; ok && e.Entry == \"\" {\n			continue\n		}\n		l.entries[e.ID] = e.Entry\n		l.status[e.ID] = e.Status")],"an empty element does not replace"),
("C25",[(X,"t.GetTemplate(subtemplateid + \".key.\" + strconv.Itoa(i))","t.GetTemplate(subtemplateid + \".key.\" + string(rune('0'+i)))")],"keys of one digit"),
("C25",[(X,"							if tmp == nil && i%2 == 0 {","							if tmp == nil && i%2 == 0 && i < 16 {")],"even up to 16"),
("C25",[(X,"					cl, _ := datacol.GetCollection(subdataid)","					cl, _ := datacol.GetCollection(subdataid)\n					if _, ok := cl.(*XDatasetCollectionTS); ok {\n						cl = cl.Clone()\n					}")],"thread safe collections copied (equivalent)"),
("C24",[(X,"						ds, ok := dcl.(XDatasetDef)\n						if ok {\n							withds = true","						ds, ok := dcl.(*XDataset)\n						if ok {\n							withds = true")],"references with plain datasets only"),
("C26",[(X,"				ds, ok := value.(XDatasetDef)\n				if ok {\n					withds = true\n					datacol.Push(ds)\n					svalue = \"array\"","				ds, ok := value.(XDatasetDef)\n				if ok {\n					withds = true\n					datacol.Push(ds)\n					svalue = \"array\"\n					if _, plain := ds.(*XDataset); !plain {\n						svalue = ds.String()\n					}")],"array of plain datasets only"),
("C27",[(X,"	tmpl.Father = t\n	t.SubTemplates[name] = tmpl","	tmpl.Father = t\n	for _, n := range strings.Split(name, \"|\") {\n		t.SubTemplates[n] = tmpl\n	}")],"AddTemplate splits names"),
("C27",[(X,"	tmpl.Father = t\n","	if tmpl.Father == nil {\n		tmpl.Father = t\n	}\n")],"first father kept (open)"),
("C30",[(X,"	tFile, err := os.Open(file)","	tFile, err := os.Open(os.ExpandEnv(file))")],"names with dollars"),
("C30",[(L,"	flatFile, err := os.Open(file)","	flatFile, err := os.Open(strings.TrimSpace(file))")],"names with spaces"),
("C30",[(L,"	data, err := ioutil.ReadFile(file)","	data, err := ioutil.ReadFile(strings.ToLower(file))")],"names in lower case"),
("C30",[(X,"	if err != nil {\n		return err\n	}\n	data, err := ioutil.ReadAll(tFile)","	if os.IsNotExist(err) {\n		t.Root = &XTemplateData{}\n		return nil\n	}\n	if err != nil {\n		return err\n	}\n	data, err := ioutil.ReadAll(tFile)")],"a missing template is empty"),
("C29",[(X,"		stack := &XDatasetCollection{}\n		stack.Push(data)\n		return t.injector(stack, language)","		stack := stacks.Get().(*XDatasetCollection)\n		defer stacks.Put(stack)\n		stack.Push(data)\n		return t.injector(stack, language)"),(X,"// MetaString and other consts:","var stacks = sync.Pool{New: func() interface{} { return &XDatasetCollection{} }}\n\n// MetaString and other consts:"),(X,"	//	\"sync\"","	\"sync\"")],"stacks not emptied"),
("C29",[(X,"		stack := &XDatasetCollection{}\n		stack.Push(data)\n		return t.injector(stack, language)","		stack := stacks.Get().(*XDatasetCollection)\n		stack.Push(data)\n		page := t.injector(stack, language)\n		stack.Pop()\n		stacks.Put(stack)\n		return page"),(X,"// MetaString and other consts:","var stacks = sync.Pool{New: func() interface{} { return &XDatasetCollection{} }}\n\n// MetaString and other consts:"),(X,"	//	\"sync\"","	\"sync\"")],"stacks pooled (equivalent)"),
("C14",[(KT,"	dc.mutex.RLock()\n	defer dc.mutex.RUnlock()\n	return append([]XDatasetDef{}, dc.data...)","	dc.mutex.RLock()\n	list := make([]XDatasetDef, len(dc.data))\n	dc.mutex.RUnlock()\n	copy(list, dc.data)\n	return list")],"records copied after the lock"),
("C13",[(T,"func NewXDatasetTS(maindata XDatasetDef) *XDatasetTS {\n	ds := &XDatasetTS{\n		data: maindata,","func NewXDatasetTS(maindata XDatasetDef) *XDatasetTS {\n	if ts, ok := maindata.(*XDatasetTS); ok {\n		return &XDatasetTS{data: ts.data}\n	}\n	ds := &XDatasetTS{\n		data: maindata,")],"wrapping a thread safe dataset loses its lock (C14)"),
("C41",[(X,"				if v.Data == \"dump\" || v.Data == \"list\" {\n					dsubstr, _ := datacol.Get(0)","				if v.Data == \"dump\" || v.Data == \"list\" {\n					dsubstr, _ := datacol.Get(datacol.Count() - 1)")],"dump of the innermost level"),
]
MUTANTS+=WAVE5+[x for x in map(port,WAVE5) if x]
