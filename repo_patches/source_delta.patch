From 73798f9a9b85421103c062defaae87e05390af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:17 +0000
Subject: [PATCH 01/25] fix: cache cleaning counts expired entries and forgets
 their keys

The expired entries were not part of the returned quantity and their keys
stayed in the recency pile, so a later cleaning removed them again instead
of the oldest entries.
---
 v2/xcache.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 4c9dfe5..cce4467 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -208,6 +208,7 @@ func (c *XCache) mClean(perc int) int {
 					log.Println("Cache timeout Expired: " + k)
 				}
 				delete(c.items, k)
+				c.removeFromPile(k)
 				i++
 			}
 		}
@@ -219,11 +220,11 @@ func (c *XCache) mClean(perc int) int {
 	if LOG {
 		log.Println("Quantity of elements to remove from cache:", num)
 	}
-	for i = 0; i < num; i++ {
-		delete(c.items, c.pile[i])
+	for j := 0; j < num; j++ {
+		delete(c.items, c.pile[j])
 	}
-	c.pile = c.pile[i:]
-	return i
+	c.pile = c.pile[num:]
+	return i + num
 }
 
 // Clean will delete expired entries, and free perc% of max items based on time.
-- 
2.43.0


From 1986cf17bf5284c9aca3e1d663db9db767b88c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:17 +0000
Subject: [PATCH 02/25] fix: cache Flush also empties the recency pile

The keys left in the pile were counted as removed by the next cleanings, so
a flushed and refilled cache grew beyond Maxitems.
---
 v2/xcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index cce4467..134e6dc 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -271,4 +271,5 @@ func (c *XCache) Flush() {
 	defer c.mutex.Unlock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 }
-- 
2.43.0


From 3822ed271858cade6b120900a23e88a35c27b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:17 +0000
Subject: [PATCH 03/25] fix: caches with less than 10 items respect Maxitems

10% of less than 10 entries is 0, so small caches grew without limit.
---
 v2/xcache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index 134e6dc..85c798f 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -74,6 +74,11 @@ func (c *XCache) Set(key string, indata interface{}) {
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
 		c.mClean(10)
+		// 10% of a small cache may be nothing: respect the limit anyway
+		for len(c.items) > c.Maxitems {
+			delete(c.items, c.pile[0])
+			c.pile = c.pile[1:]
+		}
 	}
 }
 
-- 
2.43.0


From d20d535d752039d38a9b60c30a8b6c9fd2fcc30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:27 +0000
Subject: [PATCH 04/25] fix: cache Get works on the entry under the lock

Get read and wrote the entry without the lock, and removed or moved the key
although the entry had been replaced or deleted meanwhile: an entry stored
by a concurrent Set was lost, and deleted keys came back into the pile. The
lock is only released while the Validator runs.
---
 v2/xcache.go | 68 +++++++++++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 85c798f..0a1860c 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -111,12 +111,22 @@ func (c *XCache) removeFromPile(key string) {
 	}
 }
 
-// mGet will get the entry of the cache.
-func (c *XCache) mGet(key string) (*XCacheEntry, bool) {
-	c.mutex.RLock()
-	defer c.mutex.RUnlock()
-	x, ok := c.items[key]
-	return x, ok
+// mDel will delete the entry of the cache if it exists.
+// No lock into this func since it has been set by entry func already
+func (c *XCache) mDel(key string) {
+	delete(c.items, key)
+	c.removeFromPile(key)
+}
+
+// mValidate asks the validator about the entry. The lock, set by the entry func, is released during the call.
+// Returns true if the entry is valid, and true if the entry is still the same in the cache.
+func (c *XCache) mValidate(key string, x *XCacheEntry) (bool, bool) {
+	valid := func() bool {
+		c.mutex.Unlock()
+		defer c.mutex.Lock()
+		return c.Validator(key, x.ctime)
+	}()
+	return valid, c.items[key] == x
 }
 
 // Get will get the value of an entry.
@@ -124,32 +134,31 @@ func (c *XCache) mGet(key string) (*XCacheEntry, bool) {
 // If the entry exists and is invalidated by time or validator function, then returns nil, true.
 // If the entry is good, return <value>, false.
 func (c *XCache) Get(key string) (interface{}, bool) {
-	if x, ok := c.mGet(key); ok {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	for {
+		x, ok := c.items[key]
+		if !ok {
+			return nil, false
+		}
 		// expired by TTL ?
 		if x.ttl != 0 {
 			if x.ctime.Add(x.ttl).Before(time.Now()) {
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				c.mDel(key)
 				return nil, true
 			}
 		}
 		if c.Validator != nil {
-			if b := c.Validator(key, x.ctime); !b {
+			valid, same := c.mValidate(key, x)
+			if !same {
+				// the entry changed meanwhile, check the new one
+				continue
+			}
+			if !valid {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				c.mDel(key)
 				return nil, true
 			}
 		}
@@ -159,33 +168,22 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				c.mDel(key)
 				return nil, true
 			}
 		}
 		x.rtime = time.Now()
-		c.mutex.Lock()
-		defer c.mutex.Unlock()
 		c.removeFromPile(key)
 		c.pile = append(c.pile, key)
 		return x.data, false
 	}
-	return nil, false
 }
 
 // Del will delete the entry of the cache if it exists.
 func (c *XCache) Del(key string) {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
-	delete(c.items, key)
-	// we should check if the entry exists before trying to removing
-	c.removeFromPile(key)
+	c.mDel(key)
 }
 
 // Count will return the quantity of entries in the cache.
-- 
2.43.0


From 1cc175685f857777a785acbc8809bb90df11496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:27 +0000
Subject: [PATCH 05/25] fix: cache Verify reads the entries under the lock

The entries were iterated without the lock while other goroutines modify
the map, and an entry replaced during the validation was removed because of
the verdict on the old one.
---
 v2/xcache.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 0a1860c..29900ce 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -248,18 +248,21 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
+		c.mutex.Lock()
+		defer c.mutex.Unlock()
+		items := make(map[string]*XCacheEntry, len(c.items))
 		for k, x := range c.items {
-			if b := c.Validator(k, x.ctime); !b {
+			items[k] = x
+		}
+		for k, x := range items {
+			if c.items[k] != x {
+				continue
+			}
+			if valid, same := c.mValidate(k, x); same && !valid {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.Del(k)
-				/*
-					c.mutex.Lock()
-					delete(c.items, k)
-					c.removeFromPile(k)
-					c.mutex.Unlock()
-				*/
+				c.mDel(k)
 				i++
 			}
 		}
-- 
2.43.0


From 24631bcde47e7897a61e0fe391552a455e572dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:28 +0000
Subject: [PATCH 06/25] fix: thread safe collections give nil data as an empty
 string

---
 v2/xdatasetcollectionts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 2d4838d..f01f0e0 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -100,6 +100,9 @@ func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
 func (dc *XDatasetCollectionTS) GetDataString(key string) (string, bool) {
 	v, ok := dc.GetData(key)
 	if ok {
+		if v == nil {
+			return "", true
+		}
 		return fmt.Sprint(v), true
 	}
 	return "", false
-- 
2.43.0


From 72d43330db8fb86cfcd3dae642b8323593d846db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:28 +0000
Subject: [PATCH 07/25] fix: GetCollection of a thread safe collection does not
 panic on other data

---
 v2/xdatasetcollectionts.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index f01f0e0..cd959e6 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -153,7 +153,10 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 	v, ok := dc.GetData(key)
 	// Verify v IS actually a XDatasetCollectionDef to avoid the error
 	if ok {
-		return v.(XDatasetCollectionDef), true
+		dsd, ok2 := v.(XDatasetCollectionDef)
+		if ok2 {
+			return dsd, true
+		}
 	}
 	return nil, false
 }
-- 
2.43.0


From 95c4b8b9418244058298f52baf374f35a25c4d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:28 +0000
Subject: [PATCH 08/25] fix: GetData and Clone of a thread safe collection work
 on a consistent list

---
 v2/xdatasetcollectionts.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index cd959e6..6aa2c75 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -79,16 +79,18 @@ func (dc *XDatasetCollectionTS) Get(index int) (XDatasetDef, bool) {
 	return dc.data[index], true
 }
 
+// records returns a copy of the list of records, taken under the lock
+func (dc *XDatasetCollectionTS) records() []XDatasetDef {
+	dc.mutex.RLock()
+	defer dc.mutex.RUnlock()
+	return append([]XDatasetDef{}, dc.data...)
+}
+
 // GetData will retrieve the first available data identified by key from the collection ordered by index
 func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
-	dc.mutex.RLock()
-	l := len(dc.data) - 1
-	dc.mutex.RUnlock()
-	for i := l; i >= 0; i-- {
-		dc.mutex.RLock()
-		dcc := dc.data[i]
-		dc.mutex.RUnlock()
-		val, ok := dcc.Get(key)
+	data := dc.records()
+	for i := len(data) - 1; i >= 0; i-- {
+		val, ok := data[i].Get(key)
 		if ok {
 			return val, true
 		}
@@ -164,7 +166,7 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 // Clone will make a full copy of the object into memory
 func (dc *XDatasetCollectionTS) Clone() XDatasetCollectionDef {
 	cloned := &XDatasetCollectionTS{}
-	for _, val := range dc.data {
+	for _, val := range dc.records() {
 		cloned.data = append(cloned.data, val.Clone())
 	}
 	return cloned
-- 
2.43.0


From ee45f5a09d1e0b2b67376d93dcdcd1211af481bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:28 +0000
Subject: [PATCH 09/25] fix: Pop and Shift of an empty thread safe collection
 release the lock

---
 v2/xdatasetcollectionts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 6aa2c75..0d9c176 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -40,9 +40,9 @@ func (dc *XDatasetCollectionTS) Unshift(data XDatasetDef) {
 // Shift will remove the element at the beginning of the collection
 func (dc *XDatasetCollectionTS) Shift() XDatasetDef {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
 	data := dc.data[0]
 	dc.data = dc.data[1:]
-	dc.mutex.Unlock()
 	return data
 }
 
@@ -56,9 +56,9 @@ func (dc *XDatasetCollectionTS) Push(data XDatasetDef) {
 // Pop will remove the element at the end of the collection
 func (dc *XDatasetCollectionTS) Pop() XDatasetDef {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
 	data := dc.data[len(dc.data)-1]
 	dc.data = dc.data[:len(dc.data)-1]
-	dc.mutex.Unlock()
 	return data
 }
 
-- 
2.43.0


From 208f734a98ba34e072d68b6c21165d6ff954202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:28 +0000
Subject: [PATCH 10/25] fix: clones of a dataset do not share their slices

---
 v2/xdataset.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/v2/xdataset.go b/v2/xdataset.go
index f3c661b..3cde93c 100644
--- a/v2/xdataset.go
+++ b/v2/xdataset.go
@@ -391,6 +391,19 @@ func (d *XDataset) Clone() XDatasetDef {
 		if cloneable2, ok := val.(interface{ Clone() XDatasetCollectionDef }); ok {
 			clonedval = cloneable2.Clone()
 		}
+		// The slices have their own memory too
+		switch slice := val.(type) {
+		case []string:
+			clonedval = append(slice[:0:0], slice...)
+		case []bool:
+			clonedval = append(slice[:0:0], slice...)
+		case []int:
+			clonedval = append(slice[:0:0], slice...)
+		case []float64:
+			clonedval = append(slice[:0:0], slice...)
+		case []time.Time:
+			clonedval = append(slice[:0:0], slice...)
+		}
 		cloned.Set(id, clonedval)
 	}
 	return cloned
-- 
2.43.0


From 64d0d7d789fffeff434529adb8c8e755c23a3f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:24 +0000
Subject: [PATCH 11/25] fix: name and language of a language table are read and
 written under the lock

---
 v2/xlanguage.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 7506d73..f84c40e 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -112,10 +112,10 @@ func (l *XLanguage) LoadXMLString(data string) error {
 	}
 
 	// Scan to our XLanguage Object
-	l.Name = temp.Name
-	l.Language, _ = language.Parse(temp.Language)
 	l.mutex.Lock()
 	defer l.mutex.Unlock()
+	l.Name = temp.Name
+	l.Language, _ = language.Parse(temp.Language)
 	for _, e := range temp.Entries {
 		l.entries[e.ID] = e.Entry
 		l.status[e.ID] = e.Status
@@ -179,21 +179,29 @@ func (l *XLanguage) LoadString(data string) error {
 
 // SetName will set the name of the language table
 func (l *XLanguage) SetName(name string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Name = name
 }
 
 // SetLanguage will set the language ISO code (2 letters) of the language table
 func (l *XLanguage) SetLanguage(lang language.Tag) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Language = lang
 }
 
 // GetName will return the name of the language table
 func (l *XLanguage) GetName() string {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Name
 }
 
 // GetLanguage will return the language of the language table
 func (l *XLanguage) GetLanguage() language.Tag {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Language
 }
 
-- 
2.43.0


From 551e08e738795d6a9719ccccfee75841d9e9a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:25 +0000
Subject: [PATCH 12/25] fix: GetXML escapes the special characters of names,
 ids, statuses and values

---
 v2/xlanguage.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index f84c40e..0922c97 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -260,16 +260,26 @@ func (l *XLanguage) GetEntries() map[string]string {
 	return clone
 }
 
+// cdataXML writes what a CDATA section cannot contain out of it
+var cdataXML = strings.NewReplacer("]]>", "]]]]><![CDATA[>", "\r", "]]>&#xD;<![CDATA[")
+
+// escapeXML escapes the value of an XML attribute
+func escapeXML(val string) string {
+	buf := &strings.Builder{}
+	xml.EscapeText(buf, []byte(val))
+	return buf.String()
+}
+
 // GetXML will generate the XML to save the file
 func (l *XLanguage) GetXML() string {
 	sdata := []string{}
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
 	for key, val := range l.entries {
-		sdata = append(sdata, "  <entry id=\""+key+"\" status=\""+l.status[key]+"\"><![CDATA["+val+"]]></entry>")
+		sdata = append(sdata, "  <entry id=\""+escapeXML(key)+"\" status=\""+escapeXML(l.status[key])+"\"><![CDATA["+cdataXML.Replace(val)+"]]></entry>")
 	}
 	sort.Strings(sdata) // Lets be sure the print is always the same presentation
-	return "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<language id=\"" + l.Name + "\" lang=\"" + fmt.Sprint(l.Language) + "\">\n" +
+	return "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<language id=\"" + escapeXML(l.Name) + "\" lang=\"" + fmt.Sprint(l.Language) + "\">\n" +
 		strings.Join(sdata, "\n") + "\n</language>"
 }
 
-- 
2.43.0


From cd6168b67ec182abb267f14d7a8e0a69857b8d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:15 +0000
Subject: [PATCH 13/25] fix: cloning a template links the cloned sub templates,
 not the original ones, to the clone

---
 v2/xtemplate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 72bd540..b69f92d 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -531,7 +531,7 @@ func (t *XTemplate) Clone() *XTemplate {
 		newsubtemplates := map[string]*XTemplate{}
 		for id, xt := range t.SubTemplates {
 			newsubtemplates[id] = xt.Clone()
-			xt.Father = cloned
+			newsubtemplates[id].Father = cloned
 		}
 		cloned.SubTemplates = newsubtemplates
 	}
-- 
2.43.0


From 19e68ce31989aae2a3a37980a59bd43b9fe1aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:16 +0000
Subject: [PATCH 14/25] fix: references with parameters do not panic when a
 template is executed without data

---
 v2/xtemplate.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index b69f92d..3fd7ec6 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -336,7 +336,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if len(xid) == 3 {
 				field := xid[1]
 				prefix := xid[2]
-				value, _ := datacol.GetDataString(field)
+				value := ""
+				if datacol != nil {
+					value, _ = datacol.GetDataString(field)
+				}
 				subt := t.GetTemplate(prefix + value)
 				if subt != nil {
 					substr := subt.injector(datacol, language)
@@ -356,7 +359,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				subt := t.GetTemplate(template)
 				if subt != nil {
 					withds := false
-					if len(xid) == 2 {
+					if len(xid) == 2 && datacol != nil {
 						dcl, _ := datacol.GetData(xid[1])
 						ds, ok := dcl.(XDatasetDef)
 						if ok {
-- 
2.43.0


From 82159887054a05217a6063785bd8274a3f8594ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:22 +0000
Subject: [PATCH 15/25] fix: v1 cache cleaning counts expired entries and
 forgets their keys

The keys of the expired entries stayed in the pile and were taken for the
oldest entries by the next cleanings, and the returned count missed them.
---
 xcache.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xcache.go b/xcache.go
index 0204986..3101da5 100644
--- a/xcache.go
+++ b/xcache.go
@@ -167,6 +167,7 @@ func (c *XCache) Clean(perc int) int {
 					log.Println("Cache timeout Expired: " + k)
 				}
 				delete(c.items, k)
+				c.removeFromPile(k)
 				i++
 			}
 		}
@@ -178,12 +179,12 @@ func (c *XCache) Clean(perc int) int {
 	if LOG {
 		log.Println("Quantity of elements to remove from cache:", num)
 	}
-	for i = 0; i < num; i++ {
-		delete(c.items, c.pile[i])
+	for j := 0; j < num; j++ {
+		delete(c.items, c.pile[j])
 	}
-	c.pile = c.pile[i:]
+	c.pile = c.pile[num:]
 	c.mutex.Unlock()
-	return i
+	return i + num
 }
 
 // Verify will first, Clean(0) keeping all the entries, then will delete expired entries using the Validator function.
-- 
2.43.0


From 68e6ce9559392d8a1a9e660c065736c0575739c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:22 +0000
Subject: [PATCH 16/25] fix: v1 cache Flush also empties the recency pile

The keys left in the pile were taken for entries by the next cleanings.
---
 xcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcache.go b/xcache.go
index 3101da5..349a72d 100644
--- a/xcache.go
+++ b/xcache.go
@@ -216,5 +216,6 @@ func (c *XCache) Flush() {
 	c.mutex.Lock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 	c.mutex.Unlock()
 }
-- 
2.43.0


From af0d6f07c5da6732a3363ac6fbae763123cb5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:22 +0000
Subject: [PATCH 17/25] fix: v1 caches respect Maxitems, also with less than 10
 items

The number of entries was read without the lock, and 10% of a small cache is
nothing.
---
 xcache.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/xcache.go b/xcache.go
index 349a72d..0e1def6 100644
--- a/xcache.go
+++ b/xcache.go
@@ -61,6 +61,7 @@ func NewXCache(id string, maxitems int, expire time.Duration) *XCache {
 // Returns nothing.
 func (c *XCache) Set(key string, indata interface{}) {
 	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	// check if the entry already exists
 	_, ok := c.items[key]
 	c.items[key] = &XCacheEntry{ctime: time.Now(), rtime: time.Now(), data: indata}
@@ -68,10 +69,14 @@ func (c *XCache) Set(key string, indata interface{}) {
 		c.removeFromPile(key)
 	}
 	c.pile = append(c.pile, key)
-	c.mutex.Unlock()
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
-		c.Clean(10)
+		c.mClean(10)
+		// 10% of a small cache may be nothing: respect the limit anyway
+		for len(c.items) > c.Maxitems {
+			delete(c.items, c.pile[0])
+			c.pile = c.pile[1:]
+		}
 	}
 }
 
@@ -154,11 +159,17 @@ func (c *XCache) Count() int {
 // Returns quantity of removed entries.
 // It Will **not** verify the cache against its source (if Validator is set). If you want to scan that, use the Verify function.
 func (c *XCache) Clean(perc int) int {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	return c.mClean(perc)
+}
+
+// mClean does the work of Clean. The caller holds the lock.
+func (c *XCache) mClean(perc int) int {
 	if LOG {
 		log.Println("Cleaning cache")
 	}
 	i := 0
-	c.mutex.Lock()
 	// 1. clean all expired items
 	if c.Expire != 0 {
 		for k, x := range c.items {
@@ -183,7 +194,6 @@ func (c *XCache) Clean(perc int) int {
 		delete(c.items, c.pile[j])
 	}
 	c.pile = c.pile[num:]
-	c.mutex.Unlock()
 	return i + num
 }
 
-- 
2.43.0


From cf4833436a240fbe920897a83064bf1b9fa02564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:22 +0000
Subject: [PATCH 18/25] fix: v1 cache Get works on the entry under the lock

The recency pile was changed without the lock, and an entry stored during the
call of the validator was deleted for the verdict on the old one.
---
 xcache.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/xcache.go b/xcache.go
index 0e1def6..ff37790 100644
--- a/xcache.go
+++ b/xcache.go
@@ -101,17 +101,24 @@ func (c *XCache) removeFromPile(key string) {
 // If the entry is good, return <value>, false.
 func (c *XCache) Get(key string) (interface{}, bool) {
 	c.mutex.Lock()
-	if x, ok := c.items[key]; ok {
-		c.mutex.Unlock()
+	defer c.mutex.Unlock()
+	for {
+		x, ok := c.items[key]
+		if !ok {
+			return nil, false
+		}
 		if c.Validator != nil {
-			if b := c.Validator(key, x.ctime); !b {
+			valid, same := c.mValidate(key, x)
+			if !same {
+				// the entry changed meanwhile, check the new one
+				continue
+			}
+			if !valid {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.mutex.Lock()
 				delete(c.items, key)
 				c.removeFromPile(key)
-				c.mutex.Unlock()
 				return nil, true
 			}
 		}
@@ -121,10 +128,8 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.mutex.Lock()
 				delete(c.items, key)
 				c.removeFromPile(key)
-				c.mutex.Unlock()
 				return nil, true
 			}
 		}
@@ -133,8 +138,17 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 		c.pile = append(c.pile, key)
 		return x.data, false
 	}
-	c.mutex.Unlock()
-	return nil, false
+}
+
+// mValidate asks the validator about the entry. The lock, held by the caller, is released during the call.
+// Returns true if the entry is valid, and true if the entry is still the same in the cache.
+func (c *XCache) mValidate(key string, x *XCacheEntry) (bool, bool) {
+	valid := func() bool {
+		c.mutex.Unlock()
+		defer c.mutex.Lock()
+		return c.Validator(key, x.ctime)
+	}()
+	return valid, c.items[key] == x
 }
 
 // Del will delete the entry of the cache if it exists.
-- 
2.43.0


From 24e0ca7bbf2f3b357515409c71d50d30be0044a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:22 +0000
Subject: [PATCH 19/25] fix: v1 cache Verify reads the entries under the lock

It ran over the map of entries without the lock and left the keys of the
removed entries in the recency pile.
---
 xcache.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xcache.go b/xcache.go
index ff37790..df7292e 100644
--- a/xcache.go
+++ b/xcache.go
@@ -219,14 +219,22 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
+		c.mutex.Lock()
+		defer c.mutex.Unlock()
+		items := make(map[string]*XCacheEntry, len(c.items))
 		for k, x := range c.items {
-			if b := c.Validator(k, x.ctime); !b {
+			items[k] = x
+		}
+		for k, x := range items {
+			if c.items[k] != x {
+				continue
+			}
+			if valid, same := c.mValidate(k, x); same && !valid {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.mutex.Lock()
 				delete(c.items, k)
-				c.mutex.Unlock()
+				c.removeFromPile(k)
 				i++
 			}
 		}
-- 
2.43.0


From 68edbb8e5ce41d71810739d61a29a4acd1bb7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:22 +0000
Subject: [PATCH 20/25] fix: v1 clones of a dataset do not share their slices

A write into a string, bool, int, float or time slice of a clone was visible in
the original.
---
 xdataset.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xdataset.go b/xdataset.go
index 671bc7c..33fa31d 100644
--- a/xdataset.go
+++ b/xdataset.go
@@ -387,6 +387,19 @@ func (d *XDataset) Clone() XDatasetDef {
 		if cloneable2, ok := val.(interface{ Clone() XDatasetCollectionDef }); ok {
 			clonedval = cloneable2.Clone()
 		}
+		// The slices have their own memory too
+		switch slice := val.(type) {
+		case []string:
+			clonedval = append(slice[:0:0], slice...)
+		case []bool:
+			clonedval = append(slice[:0:0], slice...)
+		case []int:
+			clonedval = append(slice[:0:0], slice...)
+		case []float64:
+			clonedval = append(slice[:0:0], slice...)
+		case []time.Time:
+			clonedval = append(slice[:0:0], slice...)
+		}
 		cloned.Set(id, clonedval)
 	}
 	return cloned
-- 
2.43.0


From cf99e71f0294dd1781e355b83c975c7e9c2b9cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:22 +0000
Subject: [PATCH 21/25] fix: v1 GetCollection of a collection does not panic on
 other data

---
 xdataset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xdataset.go b/xdataset.go
index 33fa31d..b721d61 100644
--- a/xdataset.go
+++ b/xdataset.go
@@ -578,10 +578,10 @@ func (d *XDatasetCollection) GetDataTime(key string) (time.Time, bool) {
 
 // GetCollection will retrieve a collection from the XDatasetCollection
 func (d *XDatasetCollection) GetCollection(key string) (XDatasetCollectionDef, bool) {
-	v, ok := d.GetData(key)
+	v, _ := d.GetData(key)
 	// Verify v IS actually a XDatasetCollectionDef to avoid the error
-	if ok {
-		return v.(XDatasetCollectionDef), true
+	if val, ok := v.(XDatasetCollectionDef); ok {
+		return val, true
 	}
 	return nil, false
 }
-- 
2.43.0


From e0864cc2a0ce334c377c173eae09768df31c4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:56 +0000
Subject: [PATCH 22/25] fix: v1 references with parameters do not panic when a
 template is executed without data

---
 xtemplate.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xtemplate.go b/xtemplate.go
index 6451339..dccebd0 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -317,7 +317,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if len(xid) == 3 {
 				field := xid[1]
 				prefix := xid[2]
-				value, _ := datacol.GetDataString(field)
+				value := ""
+				if datacol != nil {
+					value, _ = datacol.GetDataString(field)
+				}
 				subt := t.GetTemplate(prefix + value)
 				if subt != nil {
 					substr := subt.injector(datacol, language)
@@ -337,7 +340,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				subt := t.GetTemplate(template)
 				if subt != nil {
 					withds := false
-					if len(xid) == 2 {
+					if len(xid) == 2 && datacol != nil {
 						dcl, _ := datacol.GetData(xid[1])
 						ds, ok := dcl.(XDatasetDef)
 						if ok {
-- 
2.43.0


From eb3561babd886037055b93a4e071a7443fe8f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:56 +0000
Subject: [PATCH 23/25] fix: v1 loops over an empty collection use the .none
 sub template as documented

---
 xtemplate.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xtemplate.go b/xtemplate.go
index dccebd0..20442ec 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -398,14 +398,17 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 							// unstack extra data
 							datacol.Pop()
 						}
-					} else {
+					}
+					if cl == nil || cl.Count() == 0 {
 						var tmp *XTemplate
 						tmp = t.GetTemplate(subtemplateid + ".none")
-						if tmp == nil {
+						if tmp == nil && cl == nil {
 							tmp = subt
 						}
-						substr := tmp.injector(datacol, language)
-						injected = append(injected, substr)
+						if tmp != nil {
+							substr := tmp.injector(datacol, language)
+							injected = append(injected, substr)
+						}
 					}
 				}
 			}
-- 
2.43.0


From 0a2a84c1005de6dc3e1200afa9234fdc6635c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:57 +0000
Subject: [PATCH 24/25] fix: v1 conditions that are not met use the .none sub
 template as documented

---
 xtemplate.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xtemplate.go b/xtemplate.go
index 20442ec..76f4eb9 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -425,7 +425,12 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if datacol != nil {
 				value, _ = datacol.GetData(subdataid)
 			}
-			if subt != nil && value != nil {
+			if value == nil || value == "" {
+				// the condition is not met
+				if tmp := t.GetTemplate(subtemplateid + ".none"); tmp != nil {
+					injected = append(injected, tmp.injector(datacol, language))
+				}
+			} else if subt != nil {
 				withds := false
 				svalue := ""
 				ds, ok := value.(XDatasetDef)
-- 
2.43.0


From b28f282b44385fa38203d58cabe690fad0e44337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:04 +0000
Subject: [PATCH 25/25] fix: v1 String of an empty template does not panic

---
 xtemplate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtemplate.go b/xtemplate.go
index 76f4eb9..4a76601 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -474,6 +474,9 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 // String will transform the XDataset into a readable string for humans
 func (t *XTemplate) String() string {
 	sdata := []string{}
+	if t.Root == nil {
+		return "xcore.XLanguage{}"
+	}
 	for _, val := range *t.Root {
 		sdata = append(sdata, fmt.Sprintf("%v", val))
 	}
-- 
2.43.0

