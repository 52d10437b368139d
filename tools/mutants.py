M=[]
def bad(prop,f,old=None,new=None): M.append((prop,'bad',f,old,new))
def ok(prop,f,old=None,new=None): M.append((prop,'ok',f,old,new))
T='trace/trace.go'
# ---- C01
bad('C01',T,'s.spanContext.IsSampled() && len(exp) > 0','s.spanContext.IsSampled() && len(exp) > 1')
bad('C01',T,'s.spanContext.IsSampled() && len(exp) > 0','len(exp) > 0')
bad('C01',T,'				for e := range exp {\n					e.ExportSpan(sd)\n				}','				for e := range exp {\n					e.ExportSpan(sd)\n					if sd.Code != 0 { break }\n				}')
bad('C01',T,'sd.EndTime = internal.MonotonicEndTime(sd.StartTime)','sd.EndTime = sd.StartTime')
bad('C01',T,'	s.endOnce.Do(func() {','	func(f func()) { f() }(func() {')
bad('C01',T,'if s.spanStore != nil || mustExport {','if s.spanStore != nil && mustExport {')
bad('C01',T,'	sd = *s.data\n','	sd = *s.data\n	sd.Name = ""\n')
bad('C01',T,'			if mustExport {','			if mustExport && sd.Status.Code == 0 {')
ok('C01',T,'			if mustExport {\n				for e := range exp {\n					e.ExportSpan(sd)\n				}\n			}','			if mustExport {\n				s.deliver(exp, sd)\n			}') if 0 else None
ok('C01',[(T,'				for e := range exp {\n					e.ExportSpan(sd)\n				}','				deliver(exp, sd)'),(T,'// makeSpanData produces','func deliver(m exportersMap, d *SpanData) {\n	for x := range m {\n		x.ExportSpan(d)\n	}\n}\n\n// makeSpanData produces')])
ok('C01',T,'		if s.spanStore != nil || mustExport {','		if s.spanStore == nil && !mustExport {\n			return\n		}\n		{')
ok('C01',T,'s.spanContext.IsSampled() && len(exp) > 0','len(exp) != 0 && s.spanContext.IsSampled()')
# ---- C02
bad('C02',T,'	s.mu.Lock()\n	s.data.Name = name\n	s.mu.Unlock()','	s.data.Name = name')
bad('C02',T,'	s.mu.Lock()\n	sd = *s.data\n','	sd = *s.data\n	s.mu.Lock()\n')
bad('C02',T,'	s.mu.Lock()\n	s.copyToCappedAttributes(attributes)\n	s.mu.Unlock()','	s.copyToCappedAttributes(attributes)')
bad('C02',T,'	s.mu.Lock()\n	str := fmt.Sprintf("span %s %q", s.spanContext.SpanID, s.data.Name)\n	s.mu.Unlock()','	str := fmt.Sprintf("span %s %q", s.spanContext.SpanID, s.data.Name)')
bad('C02',T,'	s.mu.Unlock()\n	return &sd\n','	s.mu.Unlock()\n	if len(s.links.queue) > 0 {\n		sd.Links = s.interfaceArrayToLinksArray()\n	}\n	return &sd\n')
bad('C02',T,'''	if hasParent {
		s.data.ParentSpanID = parent.SpanID
	}
	if internal.LocalSpanStoreEnabled {
		var ss *spanStore
		ss = spanStoreForNameCreateIfNew(name)
		if ss != nil {
			s.spanStore = ss
			ss.add(s)
		}
	}
''','''	if internal.LocalSpanStoreEnabled {
		var ss *spanStore
		ss = spanStoreForNameCreateIfNew(name)
		if ss != nil {
			s.spanStore = ss
			ss.add(s)
		}
	}
	if hasParent {
		s.data.ParentSpanID = parent.SpanID
	}
''')
bad('C02',T,'	s.mu.Lock()\n	s.data.ChildSpanCount++\n	s.mu.Unlock()','	s.data.ChildSpanCount++')
ok('C02',T,'	s.mu.Lock()\n	s.data.Name = name\n	s.mu.Unlock()','	s.mu.Lock()\n	defer s.mu.Unlock()\n	s.data.Name = name')
# ---- C03
bad('C03',T,'		sd.Attributes = s.lruAttributesToAttributeMap()\n		sd.DroppedAttributeCount = s.lruAttributes.droppedCount','		sd.Attributes = s.lruAttributesToAttributeMap()\n		sd.DroppedAttributeCount = s.annotations.droppedCount')
bad('C03',T,'		sd.Attributes = s.lruAttributesToAttributeMap()\n','		if s.data.Attributes == nil {\n			s.data.Attributes = s.lruAttributesToAttributeMap()\n		}\n		sd.Attributes = s.data.Attributes\n')
bad('C03',T,'for _, value := range s.annotations.queue {','for _, value := range s.annotations.queue[1:] {')
bad('C03',T,'		sd.DroppedLinkCount = s.links.droppedCount','		sd.DroppedLinkCount = s.messageEvents.droppedCount')
ok('C03',T,'''	linksArr := make([]Link, 0, len(s.links.queue))
	for _, value := range s.links.queue {
		linksArr = append(linksArr, value.(Link))
	}
	return linksArr''','''	q := s.links.queue
	linksArr := make([]Link, len(q))
	for i := range q {
		linksArr[i] = q[i].(Link)
	}
	return linksArr''')
ok('C03',T,'''	linksArr := make([]Link, 0, len(s.links.queue))
	for _, value := range s.links.queue {
		linksArr = append(linksArr, value.(Link))
	}
	return linksArr''','''	var linksArr []Link
	for i := 0; i < len(s.links.queue); i++ {
		l := s.links.queue[i].(Link)
		linksArr = append(linksArr, l)
	}
	return linksArr''')
# ---- C04
A='trace/trace_api.go'
bad('C04',T,'func (s *span) AddLink(l Link) {\n	if !s.IsRecordingEvents() {\n		return\n	}\n','func (s *span) AddLink(l Link) {\n')
bad('C04',A,'func (s *Span) AddLink(l Link) {\n	if !s.IsRecordingEvents() {\n		return\n	}\n','func (s *Span) AddLink(l Link) {\n')
bad('C04',A,'	if s == nil {\n		return "<nil>"\n	}\n','')
bad('C04',T,'	if s == nil {\n		return false\n	}\n','')
bad('C04',T,'	s, _ := ctx.Value(contextKey{}).(*Span)\n	return s','	return ctx.Value(contextKey{}).(*Span)')
bad('C04',T,'	if p := t.FromContext(ctx); p != nil {','	if p := t.FromContext(ctx); true {')
ok('C04',A,'func (s *Span) AddLink(l Link) {\n	if !s.IsRecordingEvents() {\n		return\n	}\n	s.internal.AddLink(l)','func (s *Span) AddLink(l Link) {\n	if s == nil {\n		return\n	}\n	if s.internal.IsRecordingEvents() {\n		s.internal.AddLink(l)\n	}\n')
# ---- C05
EQ='trace/evictedqueue.go'; LR='trace/lrumap.go'
bad('C05',EQ,'		eq.droppedCount++\n','')
bad('C05',EQ,'eq.queue = eq.queue[1:]','eq.queue = eq.queue[:len(eq.queue)-1]')
bad('C05',EQ,'if len(eq.queue) == eq.capacity {','if len(eq.queue) > eq.capacity {')
bad('C05',LR,'		lm.droppedCount++\n','		if len(lm.cacheKeys) > 1 {\n			lm.droppedCount++\n		}\n')
bad('C05',LR,'		delete(lm.cacheKeys, key)\n','')
bad('C05',T,'newEvictedQueue(cfg.MaxLinksPerSpan)','newEvictedQueue(cfg.MaxMessageEventsPerSpan)')
bad('C05',T,'	s.links = newEvictedQueue(cfg.MaxLinksPerSpan)','	s.links = s.annotations')
bad('C05',T,'EventType:            MessageEventTypeRecv','EventType:            MessageEventTypeSent')
bad('C05',T,'		s.lruAttributes.add(a.key, a.value)','		if _, ok := s.lruAttributes.get(a.key); !ok {\n			s.lruAttributes.add(a.key, a.value)\n		}')
bad('C05',T,'	s.links.add(l)','	s.messageEvents.add(l)')
ok('C05',EQ,'''	if len(eq.queue) == eq.capacity {
		eq.queue = eq.queue[1:]
		eq.droppedCount++
	}
	eq.queue = append(eq.queue, value)''','''	if len(eq.queue) >= eq.capacity {
		eq.evictOldest()
	}
	eq.queue = append(eq.queue, value)
}

func (eq *evictedQueue) evictOldest() {
	eq.droppedCount += 1
	q := eq.queue
	eq.queue = q[1:len(q)]''')
ok('C05',T,'''	for _, a := range attributes {
		s.lruAttributes.add(a.key, a.value)
	}''','''	lm := s.lruAttributes
	for i := 0; i < len(attributes); i++ {
		a := &attributes[i]
		lm.add(a.Key(), a.Value())
	}''')
ok('C05',LR,'''	lm.cacheKeys[lru.Key(key)] = value
	lm.cache.Add(lru.Key(key), value)''','''	k := lru.Key(key)
	lm.cacheKeys[k] = value
	lm.cache.Add(k, value)''')
ok('C05',T,'''	now := time.Now()
	s.mu.Lock()
	s.messageEvents.add(MessageEvent{
		Time:                 now,
		EventType:            MessageEventTypeSent,
		MessageID:            messageID,
		UncompressedByteSize: uncompressedByteSize,
		CompressedByteSize:   compressedByteSize,
	})
	s.mu.Unlock()
}''','''	s.addMessageEvent(MessageEventTypeSent, messageID, uncompressedByteSize, compressedByteSize)
}

func (s *span) addMessageEvent(t MessageEventType, id, u, c int64) {
	ev := MessageEvent{Time: time.Now(), EventType: t}
	ev.MessageID = id
	ev.UncompressedByteSize, ev.CompressedByteSize = u, c
	s.mu.Lock()
	defer s.mu.Unlock()
	s.messageEvents.add(ev)
}''')
ok('C05',T,'''	var am map[string]interface{}
	if len(attributes) != 0 {
		am = make(map[string]interface{}, len(attributes))
		for _, attr := range attributes {
			am[attr.key] = attr.value
		}
	}
''','''	am := attrMap(attributes)
''') if 0 else ok('C05',[(T,'''	var am map[string]interface{}
	if len(attributes) != 0 {
		am = make(map[string]interface{}, len(attributes))
		for _, attr := range attributes {
			am[attr.key] = attr.value
		}
	}
''','''	am := attrMap(attributes)
'''),(T,'// makeSpanData produces','''func attrMap(attributes []Attribute) map[string]interface{} {
	if len(attributes) == 0 {
		return nil
	}
	m := make(map[string]interface{})
	for i := range attributes {
		m[attributes[i].key] = attributes[i].value
	}
	return m
}

// makeSpanData produces''')])
# ---- C06
SA='trace/sampling.go'
bad('C06',T,'if !hasParent || remoteParent || o.Sampler != nil {','if !hasParent || o.Sampler != nil {')
bad('C06',T,'if !hasParent || remoteParent || o.Sampler != nil {','if !hasParent || remoteParent {')
bad('C06',SA,'		if p.ParentContext.IsSampled() {\n			return SamplingDecision{Sample: true}\n		}\n','')
bad('C06',SA,'} else if fraction >= 1 {','} else if fraction > 1 {') if 0 else None
bad('C06',T,'			HasRemoteParent: remoteParent}).Sample)','			HasRemoteParent: hasParent}).Sample)')
bad('C06',T,'		sc.TraceOptions &= ^TraceOptions(1)','		sc.TraceOptions = 0')
bad('C06',T,'	return t&1 == 1','	return t == 1')
bad('C06',T,'	if !internal.LocalSpanStoreEnabled && !s.spanContext.IsSampled() {','	if !internal.LocalSpanStoreEnabled && !s.spanContext.IsSampled() && !hasParent {')
bad('C06',T,'			ParentContext:   parent,\n','			ParentContext:   s.spanContext,\n')
ok('C06',T,'	return t&1 == 1','	return t&1 != 0')
ok('C06',T,'''		if o.Sampler != nil {
			sampler = o.Sampler
		}
		s.spanContext.setIsSampled(sampler(SamplingParameters{
			ParentContext:   parent,
			TraceID:         s.spanContext.TraceID,
			SpanID:          s.spanContext.SpanID,
			Name:            name,
			HasRemoteParent: remoteParent}).Sample)
''','''		params := SamplingParameters{
			ParentContext:   parent,
			TraceID:         s.spanContext.TraceID,
			SpanID:          s.spanContext.SpanID,
			Name:            name,
			HasRemoteParent: remoteParent,
		}
		var d SamplingDecision
		if o.Sampler == nil {
			d = sampler(params)
		} else {
			d = o.Sampler(params)
		}
		s.spanContext.setIsSampled(d.Sample)
''')
ok('C06',T,'''	if sampled {
		sc.TraceOptions |= 1
	} else {
		sc.TraceOptions &= ^TraceOptions(1)
	}''','''	opts := sc.TraceOptions &^ 1
	if sampled {
		opts |= 1
	}
	sc.TraceOptions = opts''')
ok('C06',SA,'''		if p.ParentContext.IsSampled() {
			return SamplingDecision{Sample: true}
		}
		x := binary.BigEndian.Uint64(p.TraceID[0:8]) >> 1
		return SamplingDecision{Sample: x < traceIDUpperBound}''','''		x := binary.BigEndian.Uint64(p.TraceID[:8]) >> 1
		return SamplingDecision{Sample: p.ParentContext.IsSampled() || traceIDUpperBound > x}''')
ok('C06',SA,'''	if !(fraction >= 0) {
		fraction = 0
	} else if fraction >= 1 {
		return AlwaysSample()
	}
''','''	switch {
	case fraction >= 1:
		return AlwaysSample()
	case fraction >= 0:
	default:
		fraction = 0
	}
''')
# ---- C07
bad('C06',T,'if !hasParent {\n		s.spanContext.TraceID','if !hasParent || remoteParent {\n		s.spanContext.TraceID')
bad('C06',T,'	s.spanContext.SpanID = cfg.IDGenerator.NewSpanID()','	if !hasParent || !remoteParent {\n		s.spanContext.SpanID = cfg.IDGenerator.NewSpanID()\n	}')
bad('C07',T,'	for id == 0 {','	if id == 0 {')
bad('C07',T,'gen.spanIDInc |= 1','gen.spanIDInc |= 2')
bad('C07',T,'id = atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)','gen.nextSpanID += gen.spanIDInc\n		id = gen.nextSpanID')
bad('C06',T,'		s.data.ParentSpanID = parent.SpanID','		s.data.ParentSpanID = s.spanContext.SpanID')
bad('C07',T,'	gen.Lock()\n','') if 0 else None
# ---- C08
EX='trace/export.go'; CF='trace/config.go'
bad('C08',CF,'	configWriteMu.Lock()\n	defer configWriteMu.Unlock()\n','	configWriteMu.Lock()\n	configWriteMu.Unlock()\n')
bad('C08',CF,'	c := *config.Load().(*Config)\n','	c := config.Load().(*Config)\n') if 0 else bad('C08',[(CF,'	c := *config.Load().(*Config)\n','	c := config.Load().(*Config)\n'),(CF,'config.Store(&c)','config.Store(c)')])
bad('C08',CF,'if cfg.MaxLinksPerSpan > 0 {','if cfg.MaxLinksPerSpan != 0 {')
bad('C08',CF,'		c.MaxLinksPerSpan = cfg.MaxLinksPerSpan','		c.MaxLinksPerSpan = cfg.MaxAttributesPerSpan')
bad('C08',CF,'	if cfg.IDGenerator != nil {\n		c.IDGenerator = cfg.IDGenerator\n	}\n','	c.IDGenerator = cfg.IDGenerator\n')
bad('C08',EX,'	delete(new, e)\n	exporters.Store(new)','	exporters.Store(new)\n	delete(new, e)')
bad('C08',EX,'		for k, v := range old {\n			new[k] = v\n		}\n	}\n	new[e] = struct{}{}','		new = old\n	}\n	new[e] = struct{}{}')
bad('C08',EX,'	exporterMu.Lock()\n	new := make(exportersMap)\n	if old, ok := exporters.Load().(exportersMap); ok {\n		for k, v := range old {\n			new[k] = v\n		}\n	}\n	delete','	new := make(exportersMap)\n	if old, ok := exporters.Load().(exportersMap); ok {\n		for k, v := range old {\n			new[k] = v\n		}\n	}\n	exporterMu.Lock()\n	delete')
ok('C08',EX,'''	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	delete(new, e)
	exporters.Store(new)
	exporterMu.Unlock()
}''','''	defer exporterMu.Unlock()
	m := copyExporters()
	delete(m, e)
	exporters.Store(m)
}

func copyExporters() exportersMap {
	old, _ := exporters.Load().(exportersMap)
	m := make(exportersMap, len(old)+1)
	for k := range old {
		m[k] = struct{}{}
	}
	return m
}''')
ok('C08',EX,'''	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	delete(new, e)''','''	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			if k == e {
				continue
			}
			new[k] = v
		}
	}''')
ok('C08',CF,'''	c := *config.Load().(*Config)
''','''	old := config.Load().(*Config)
	c := *old
''')
ok('C08',[(CF,'''	if cfg.MaxLinksPerSpan > 0 {
		c.MaxLinksPerSpan = cfg.MaxLinksPerSpan
	}
''','''	setPositive(&c.MaxLinksPerSpan, cfg.MaxLinksPerSpan)
'''),(CF,'// ApplyConfig','''func setPositive(dst *int, v int) {
	if v >= 1 {
		*dst = v
	}
}

// ApplyConfig''')])
# ---- C09
SS='trace/spanstore.go'; SB='trace/spanbucket.go'
bad('C09',SB,'latency >= defaultLatencies[i]','latency > defaultLatencies[i]')
bad('C09',SB,'	if b.nextIndex == len(b.buffer) {','	if b.nextIndex == cap(b.buffer)-1 {')
bad('C09',SB,'		newBuffer[i] = b.span(i + cur - n)','		newBuffer[i] = b.span(i)')
bad('C09',SB,'	b.nextIndex = 0\n	b.overflow = true\n','	b.nextIndex = 0\n	b.overflow = cur > n\n') if 0 else None
bad('C09',SB,'		b.nextIndex = cur\n','		b.nextIndex = 0\n')
bad('C09',SB,'	if len(b.buffer) == 0 {\n		return\n	}\n','')
bad('C09',SB,'	if i < len(b.buffer)-b.nextIndex {','	if i <= len(b.buffer)-b.nextIndex {')
bad('C09',SS,'	delete(s.active, span)\n','	if code == 0 {\n		delete(s.active, span)\n	}\n')
bad('C09',SS,'	if latency < 0 {\n		latency = 0\n	}\n','	if latency < 0 {\n		return\n	}\n')
bad('C09',SS,'		if errorBucketSize > maxBucketSize {','		if latencyBucketSize > maxBucketSize {')
bad('C09',SS,'	ssmu.Lock()\n	defer ssmu.Unlock()\n	s, ok = spanStores[name]\n	if ok {\n		return s\n	}\n','	ssmu.Lock()\n	defer ssmu.Unlock()\n')
bad('C09',SS,'	for _, b := range s.errors {\n		b.resize(errorBucketSize)\n	}\n','	for _, b := range s.errors {\n		b.resize(latencyBucketSize)\n	}\n')
bad('C09',SS,'	s.maxSpansPerErrorBucket = errorBucketSize\n	s.mu.Unlock()','	s.mu.Unlock()')
bad('C09',SS,'if d < minLatency {','if d <= minLatency {')
bad('C09',SS,'make([]bucket, len(defaultLatencies)+1)','make([]bucket, len(defaultLatencies))')
bad('C09',SS,'			s.errors[code] = &b\n','			s.errors[code&0xf] = &b\n')
ok('C09',SB,'''	i := 0
	for i < len(defaultLatencies) && latency >= defaultLatencies[i] {
		i++
	}
	return i''','''	for i, bound := range defaultLatencies {
		if latency < bound {
			return i
		}
	}
	return len(defaultLatencies)''')
ok('C09',SS,'''		if b := s.errors[code]; b != nil {
			b.add(sd)
		} else {
			b := makeBucket(s.maxSpansPerErrorBucket)
			s.errors[code] = &b
			b.add(sd)
		}''','''		b, ok := s.errors[code]
		if !ok {
			nb := makeBucket(s.maxSpansPerErrorBucket)
			b = &nb
			s.errors[code] = b
		}
		b.add(sd)''')
ok('C09',SB,'''	b.nextTime = s.EndTime.Add(samplePeriod)
	b.buffer[b.nextIndex] = s
	b.nextIndex++
	if b.nextIndex == len(b.buffer) {
		b.nextIndex = 0
		b.overflow = true
	}''','''	b.buffer[b.nextIndex] = s
	b.nextTime = s.EndTime.Add(samplePeriod)
	next := b.nextIndex + 1
	if next >= len(b.buffer) {
		next = 0
		b.overflow = true
	}
	b.nextIndex = next''')
ok('C09',[(SS,'''		latencyBucketSize := bc.MaxRequestsSucceeded
		if latencyBucketSize < 0 {
			latencyBucketSize = 0
		}
		if latencyBucketSize > maxBucketSize {
			latencyBucketSize = maxBucketSize
		}
		errorBucketSize := bc.MaxRequestsErrors
		if errorBucketSize < 0 {
			errorBucketSize = 0
		}
		if errorBucketSize > maxBucketSize {
			errorBucketSize = maxBucketSize
		}
		spanStoreSetSize(bc.Name, latencyBucketSize, errorBucketSize)''','''		spanStoreSetSize(bc.Name, clampBucketSize(bc.MaxRequestsSucceeded), clampBucketSize(bc.MaxRequestsErrors))'''),(SS,'type spanStore struct','''func clampBucketSize(n int) int {
	switch {
	case n < 0:
		return 0
	case n > maxBucketSize:
		return maxBucketSize
	default:
		return n
	}
}

type spanStore struct''')])
ok('C09',SS,'''			if minLatency != 0 || maxLatency != 0 {
				d := sd.EndTime.Sub(sd.StartTime)
				if d < minLatency {
					continue
				}
				if maxLatency != 0 && d > maxLatency {
					continue
				}
			}
			out = append(out, sd)''','''			d := sd.EndTime.Sub(sd.StartTime)
			if (minLatency != 0 || maxLatency != 0) && (d < minLatency || maxLatency != 0 && d > maxLatency) {
				continue
			}
			out = append(out, sd)''')
ok('C09',SB,'''	cur := b.size()
	newBuffer := make([]*SpanData, n)
	if cur < n {
		for i := 0; i < cur; i++ {
			newBuffer[i] = b.span(i)
		}
		b.buffer = newBuffer
		b.nextIndex = cur
		b.overflow = false
		return
	}
	for i := 0; i < n; i++ {
		newBuffer[i] = b.span(i + cur - n)
	}
	b.buffer = newBuffer
	b.nextIndex = 0
	b.overflow = true''','''	cur := b.size()
	keep := cur
	if keep > n {
		keep = n
	}
	newBuffer := make([]*SpanData, n)
	for i := 0; i < keep; i++ {
		newBuffer[i] = b.span(cur - keep + i)
	}
	b.buffer = newBuffer
	b.overflow = cur >= n
	b.nextIndex = keep
	if b.overflow {
		b.nextIndex = 0
	}''')
# ---- tags ----
T='tag/map.go'; TC='tag/map_codec.go'
bad('C14',T,'	m := newMap()\n	orig := FromContext(ctx)\n	if orig != nil {','	m := newMap()\n	orig := FromContext(ctx)\n	if orig != nil && len(mutator) == 1 {\n		m = orig\n	} else if orig != nil {')
bad('C14',T,'			return ctx, err\n		}\n	}\n	return NewContext(ctx, m), nil','			return NewContext(ctx, newMap()), err\n		}\n	}\n	return NewContext(ctx, m), nil')
bad('C14',T,'	m := newMap()\n	orig := FromContext(ctx)','	orig := FromContext(ctx)\n	m := newMap()\n	if orig != nil && len(orig.m) == 0 {\n		m.m = orig.m\n	}')
bad('C14',T,'		m, err = mod.Mutate(m)\n		if err != nil {\n			return ctx, err\n		}','		m, err = mod.Mutate(m)\n		if err != nil {\n			break\n		}')
ok('C14 C15 C16 C41',T,'''	m := newMap()
	orig := FromContext(ctx)
	if orig != nil {
		for k, v := range orig.m {
			if !checkKeyName(k.Name()) {
				return ctx, fmt.Errorf("key:%q: %v", k, errInvalidKeyName)
			}
			if !checkValue(v.value) {
				return ctx, fmt.Errorf("key:%q value:%q: %v", k.Name(), v, errInvalidValue)
			}
			m.insert(k, v.value, v.m)
		}
	}
	var err error
	for _, mod := range mutator {
		m, err = mod.Mutate(m)
		if err != nil {
			return ctx, err
		}
	}
	return NewContext(ctx, m), nil
}
''','''	m, err := copyOf(FromContext(ctx))
	if err != nil {
		return ctx, err
	}
	for i := 0; i < len(mutator); i++ {
		next, err := mutator[i].Mutate(m)
		if err != nil {
			return ctx, err
		}
		m = next
	}
	return NewContext(ctx, m), nil
}

func copyOf(orig *Map) (*Map, error) {
	m := newMap()
	if orig == nil {
		return m, nil
	}
	for k, v := range orig.m {
		if !checkKeyName(k.Name()) {
			return nil, fmt.Errorf("key:%q: %v", k, errInvalidKeyName)
		}
		if !checkValue(v.value) {
			return nil, fmt.Errorf("key:%q value:%q: %v", k.Name(), v, errInvalidValue)
		}
		m.m[k] = v
	}
	return m, nil
}
''')
bad('C15','tag/validate.go','	if len(v) > maxKeyLength {\n		return false\n	}\n	return isASCII(v)','	return len(v) <= maxKeyLength || isASCII(v)')
bad('C15','tag/validate.go','	for _, c := range s {\n		if (c < validKeyValueMin)','	for i, c := range s {\n		if i > 100 {\n			break\n		}\n		if (c < validKeyValueMin)')
bad('C15','tag/validate.go','validKeyValueMax = 126','validKeyValueMax = 127')
bad('C15','tag/validate.go','	if len(name) == 0 {\n		return false\n	}\n','')
bad('C15',TC,'		if !checkValue(val) {\n			return errInvalidValue\n		}\n','')
bad('C15',TC,'		key, err := NewKey(string(k))\n		if err != nil {\n			return err\n		}\n','		key := Key{name: string(k)}\n')
bad('C15',T,'''			if !checkKeyName(k.name) {
				return nil, errInvalidKeyName
			}
			if !checkValue(v) {
				return nil, errInvalidValue
			}
			m.update(''','''			if !checkKeyName(k.name) {
				return nil, errInvalidKeyName
			}
			m.update(''')
ok('C15','tag/validate.go','	for _, c := range s {\n		if (c < validKeyValueMin) || (c > validKeyValueMax) {\n			return false\n		}\n	}\n	return true','	for i := 0; i < len(s); i++ {\n		if c := s[i]; c < validKeyValueMin || c > validKeyValueMax {\n			return false\n		}\n	}\n	return true')
ok('C15','tag/validate.go','	for _, c := range s {\n		if (c < validKeyValueMin) || (c > validKeyValueMax) {\n			return false\n		}\n	}\n	return true','	ok := true\n	for _, c := range s {\n		ok = ok && c >= validKeyValueMin && c <= validKeyValueMax\n	}\n	return ok')
ok('C15','tag/validate.go','	for _, c := range s {\n		if (c < validKeyValueMin) || (c > validKeyValueMax) {\n			return false\n		}\n	}\n	return true','	ok := true\n	for _, c := range s {\n		if !printable(c) {\n			ok = false\n			break\n		}\n	}\n	return ok\n}\n\nfunc printable(c rune) bool {\n	return validKeyValueMin <= c && c <= validKeyValueMax')
bad('C16',T,'	if _, ok := m.m[k]; ok {\n		return\n	}\n	m.m[k] =','	if c, ok := m.m[k]; ok && c.value != "" {\n		return\n	}\n	m.m[k] =')
bad('C16',T,'	if _, ok := m.m[k]; ok {\n		m.m[k] = tagContent{value: v, m: md}\n	}','	if old, ok := m.m[k]; ok {\n		m.m[k] = tagContent{value: v, m: old.m}\n	}')
bad('C16',T,'	if len(mds) > 0 {\n','	if len(mds) > 1 {\n')
bad('C16',T,'	if len(mds) > 0 {\n','	if mds != nil {\n')
bad('C16',TC,'v.m.ttl.ttl == valueTTLUnlimitedPropagation','v.m.ttl.ttl != 1')
bad('C16',TC,'v.m.ttl.ttl == valueTTLUnlimitedPropagation {','v.m.ttl.ttl == valueTTLUnlimitedPropagation && v.value != "" {')
bad('C16',TC,'createMetadatas(WithTTL(TTLUnlimitedPropagation))','createMetadatas(WithTTL(TTLNoPropagation))')
bad('C16',T,'	for _, mod := range mutator {\n','	for i := range mutator {\n		mod := mutator[len(mutator)-1-i]\n')
bad('C16',TC,'	err := DecodeEach(bytes, ts.upsert)','	err := DecodeEach(bytes, ts.insert)')
ok('C16',TC,'v.m.ttl.ttl == valueTTLUnlimitedPropagation','v.m.ttl != TTLNoPropagation')
ok('C16 C14 C15',T,'''			m.insert(k, v, createMetadatas(mds...))
			return m, nil''','''			content := tagContent{value: v, m: createMetadatas(mds...)}
			if _, present := m.m[k]; !present {
				m.m[k] = content
			}
			return m, nil''')
ok('C16',TC,'''		if v.m.ttl.ttl == valueTTLUnlimitedPropagation {
			eg.writeByte(byte(keyTypeString))
			eg.writeStringWithVarintLen(k.name)
			eg.writeBytesWithVarintLen([]byte(v.value))
		}''','''		if v.m.ttl.ttl != valueTTLUnlimitedPropagation {
			continue
		}
		eg.writeTagString(k.Name(), v.value)''')
bad('C41','tag/profile_19.go','	if m := FromContext(ctx); m != nil {','	if m := FromContext(ctx); len(m.m) > 0 {')
bad('C41',T,'	if m == nil {\n		return "", false\n	}\n','')
bad('C41','tag/context.go','	if ts == nil {\n		return nil\n	}\n','')
bad('C41',TC,'	if m == nil {\n		return nil\n	}\n','')
ok('C14',T,'''		m, err = mod.Mutate(m)
		if err != nil {
			return ctx, err
		}
	}
	return NewContext''','''		m, err = mod.Mutate(m)
		if err != nil {
			break
		}
	}
	if err != nil {
		return ctx, err
	}
	return NewContext''')
ok('C16',[(T,'	m map[Key]tagContent','	tags map[Key]tagContent'),(T,'	v, ok := m.m[k]','	v, ok := m.tags[k]'),(T,'len(m.m))\n	for k := range m.m','len(m.tags))\n	for k := range m.tags'),(T,'m.m[k]))','m.tags[k]))'),(T,'''	if _, ok := m.m[k]; ok {
		return
	}
	m.m[k] =''','''	if _, ok := m.tags[k]; ok {
		return
	}
	m.tags[k] ='''),(T,'''	if _, ok := m.m[k]; ok {
		m.m[k] =''','''	if _, ok := m.tags[k]; ok {
		m.tags[k] ='''),(T,'	m.m[k] = tagContent{value: v, m: md}\n}\n\nfunc (m *Map) delete','	m.tags[k] = tagContent{value: v, m: md}\n}\n\nfunc (m *Map) delete'),(T,'delete(m.m, k)','delete(m.tags, k)'),(T,'&Map{m:','&Map{tags:'),(T,'range orig.m','range orig.tags'),(TC,'len(m.m)','len(m.tags)'),(TC,'range m.m','range m.tags'),('tag/profile_19.go','len(m.m)','len(m.tags)'),('tag/profile_19.go','range m.m','range m.tags')])

# ---- C40
TS='trace/tracestate/tracestate.go'
bad('C40',TS,'	return append([]Entry(nil), ts.entries...)','	return ts.entries')
bad('C40',TS,'''	all := make([]Entry, 0, len(entries)+len(ts.entries))
	all = append(all, entries...)
	ts.entries = append(all, ts.entries...)''','	ts.entries = append(entries, ts.entries...)')
bad('C40',TS,'''	all = append(all, entries...)
	ts.entries = append(all, ts.entries...)''','''	all = append(all, ts.entries...)
	ts.entries = append(all, entries...)''')
bad('C40',TS,'tracestate.entries = append([]Entry{}, parent.entries...)','tracestate.entries = parent.entries')
bad('C40',TS,'len(ts.entries)+len(entries) > maxKeyValuePairs','len(ts.entries)+len(entries) > maxKeyValuePairs+1')
bad('C40',TS,'len(ts.entries)+len(entries) > maxKeyValuePairs','len(ts.entries)+len(entries) >= maxKeyValuePairs')
bad('C40',TS,'''	for _, entry := range entries {
		ts.remove(entry.Key)
	}
	if len(''','''	before := len(ts.entries)
	for _, entry := range entries {
		ts.remove(entry.Key)
	}
	if before+len(entries) > maxKeyValuePairs {
		return fmt.Errorf("too many")
	}
	if len(''')
bad('C40',TS,'	keyMaxSize       = 256','	keyMaxSize       = 256\n	_=1') if 0 else None
bad('C40',TS,'{0,240}@[a-z]','{0,241}@[a-z]')
bad('C40',TS,'''[\\x21-\\x2b\\x2d-\\x3c\\x3e-\\x7e]`''','''[\\x20-\\x2b\\x2d-\\x3c\\x3e-\\x7e]`''')
bad('C40',TS,'	return keyValidationRegExp.MatchString(entry.Key) &&\n		valueValidationRegExp','	return keyValidationRegExp.MatchString(entry.Key) ||\n		valueValidationRegExp')
bad('C40',TS,"`^(` + keyFormat + `)$`","`^` + keyFormat + `$`")
bad('C40',TS,'		if !isValid(entry) {\n			return &entry, false\n		}','		if !isValid(entry) && entry.Value != "" {\n			return &entry, false\n		}')
bad('C40',TS,'''			return entry.Key, true
		}
		keyMap[entry.Key] = 1''','''			return entry.Key, true
		}
		keyMap[entry.Value] = 1''')
bad('C40',TS,'		if entry.Key == key {','		if entry.Key >= key {')
bad('C40',TS,'ts.entries[index+1:]...)','ts.entries[index:]...)')
bad('C40',TS,'	for _, entry := range entries {\n		ts.remove(entry.Key)\n	}','	for _, entry := range entries[1:] {\n		ts.remove(entry.Key)\n	}')
bad('C40',TS,'	if parent != nil && len(parent.entries) > 0 {','	if parent != nil && len(entries) > 0 {')
bad('C40',TS,'	if parent == nil && len(entries) == 0 {','	if len(entries) == 0 {')
bad('C40',TS,'''	if err != nil {
		return nil, err
	}
	return &tracestate, nil''','''	if err != nil {
		return parent, err
	}
	return &tracestate, nil''')
bad('C40',TS,'	err := tracestate.add(entries)\n	if err != nil {\n		return nil, err\n	}\n	return &tracestate, nil','	return &tracestate, tracestate.add(entries)')
ok('C40',TS,'''		all := make''','''		all := make''') if 0 else None
ok('C40',TS,'''	if err != nil {
		return nil, err
	}
	return &tracestate, nil''','''	if err == nil {
		return &tracestate, nil
	}
	return nil, err''')
ok('C40',TS,'''	for index, entry := range ts.entries {
		if entry.Key == key {
			ts.entries = append(ts.entries[:index], ts.entries[index+1:]...)
			return &entry
		}
	}
	return nil''','''	for i := 0; i < len(ts.entries); i++ {
		if ts.entries[i].Key != key {
			continue
		}
		removed := ts.entries[i]
		ts.entries = append(ts.entries[:i], ts.entries[i+1:]...)
		return &removed
	}
	return nil''')
ok('C40',TS,'''	for _, entry := range entries {
		if !isValid(entry) {
			return &entry, false
		}
	}
	return nil, true''','''	for i := range entries {
		e := entries[i]
		if !keyValidationRegExp.MatchString(e.Key) || !valueValidationRegExp.MatchString(e.Value) {
			return &entries[i], false
		}
	}
	return nil, true''')
ok('C40',TS,'''	keyMap := make(map[string]int)
	for _, entry := range entries {
		if _, ok := keyMap[entry.Key]; ok {
			return entry.Key, true
		}
		keyMap[entry.Key] = 1
	}''','''	seen := make(map[string]bool, len(entries))
	for _, entry := range entries {
		if seen[entry.Key] {
			return entry.Key, true
		}
		seen[entry.Key] = true
	}''')
ok('C40',TS,'''	for i := range 0''','') if 0 else None
ok('C40',TS,'''	tracestate := Tracestate{}

	if parent != nil && len(parent.entries) > 0 {
		tracestate.entries = append([]Entry{}, parent.entries...)
	}
''','''	ts := new(Tracestate)
	tracestate := ts
	if parent != nil {
		tracestate.entries = make([]Entry, len(parent.entries))
		copy(tracestate.entries, parent.entries)
	}
''') if 0 else None
ok('C40',TS,'''	tracestate := Tracestate{}

	if parent != nil && len(parent.entries) > 0 {
		tracestate.entries = append([]Entry{}, parent.entries...)
	}

	err := tracestate.add(entries)
	if err != nil {
		return nil, err
	}
	return &tracestate, nil''','''	added := make(map[string]bool, len(entries))
	for _, entry := range entries {
		added[entry.Key] = true
	}
	all := append([]Entry(nil), entries...)
	if parent != nil {
		for _, entry := range parent.entries {
			if !added[entry.Key] {
				all = append(all, entry)
			}
		}
	}
	if len(all) > maxKeyValuePairs {
		return nil, fmt.Errorf("too many entries: %d", len(all))
	}
	return &Tracestate{entries: all}, nil''')
ok('C40',TS,'''	if ts == nil {
		return nil
	}
	return append([]Entry(nil), ts.entries...)''','''	if ts == nil {
		return nil
	}
	out := make([]Entry, len(ts.entries))
	copy(out, ts.entries)
	return out''')

# ---- C39
RS='resource/resource.go'
bad('C39',RS,'''	if a == nil {
		return b
	}
	if b == nil {
		return a
	}''','''	if a == nil {
		return b
	}
	if b == nil {
		return nil
	}''')
bad('C39',RS,'	if res.Type == "" {','	if b.Type != "" {')
bad('C39',RS,'''	for k, v := range b.Labels {
		res.Labels[k] = v
	}
	// Labels from resource a overwrite labels from resource b.
	for k, v := range a.Labels {
		res.Labels[k] = v
	}''','''	for k, v := range a.Labels {
		res.Labels[k] = v
	}
	for k, v := range b.Labels {
		res.Labels[k] = v
	}''')
bad('C39',RS,'		Labels: map[string]string{},\n	}\n	if res.Type','		Labels: a.Labels,\n	}\n	if res.Type')
bad('C39',RS,'	for k, v := range a.Labels {\n		res.Labels[k] = v\n	}','	for k, v := range a.Labels {\n		if v != "" {\n			res.Labels[k] = v\n		}\n	}')
bad('C39',RS,'res = merge(res, r)','res = merge(r, res)')
bad('C39',RS,'			return nil, err\n		}\n		res = merge','			return res, err\n		}\n		res = merge')
bad('C39',RS,'		if err != nil {\n			return nil, err\n		}\n		res = merge','		if err != nil && r == nil {\n			return nil, err\n		}\n		res = merge')
bad('C39',RS,'		if err != nil {\n			return nil, err\n		}\n		res = merge','		if err != nil {\n			break\n		}\n		res = merge')
bad('C39',RS,'	sort.Strings(sortedKeys)\n','	sort.Strings(sortedKeys[:len(sortedKeys)/2])\n') if 0 else None
bad('C39',[(RS,'	sort.Strings(sortedKeys)\n',''),(RS,'	"sort"\n','')])
bad('C39',RS,'strconv.Quote(labels[k])','"\\"" + labels[k] + "\\""')
bad('C39',RS,'		if i > 0 {\n','		if i > 1 {\n')
bad('C39',RS,'(?:[^[:^ascii:]"\\\\]|\\\\[[:ascii:]]){0,256}?','[[:ascii:]]{0,256}?')
bad('C39',RS,'(?:[^[:^ascii:]"\\\\]|\\\\[[:ascii:]]){0,256}?','(?:[^[:^ascii:]"\\\\]|\\\\[[:ascii:]]){0,255}?')
bad('C39',RS,'{1,256}?)=','{1,256})=')
bad('C39',RS,'s = s[len(match[0]):]','s = s[len(match[0])-1:]')
bad('C39',RS,'m[match[1]] = v','m[strings.ToLower(match[1])] = v') if 0 else None
bad('C39',RS,'			return nil, fmt.Errorf("invalid label formatting, remainder: %s", s)','			break')
ok('C39',RS,'''	res := &Resource{
		Type:   a.Type,
		Labels: map[string]string{},
	}
	if res.Type == "" {
		res.Type = b.Type
	}
	for k, v := range b.Labels {
		res.Labels[k] = v
	}
	// Labels from resource a overwrite labels from resource b.
	for k, v := range a.Labels {
		res.Labels[k] = v
	}
	return res''','''	typ := b.Type
	if a.Type != "" {
		typ = a.Type
	}
	labels := make(map[string]string, len(a.Labels)+len(b.Labels))
	for k, v := range a.Labels {
		labels[k] = v
	}
	for k, v := range b.Labels {
		if _, ok := labels[k]; !ok {
			labels[k] = v
		}
	}
	return &Resource{Type: typ, Labels: labels}''')
ok('C39',RS,'''		r, err := d(ctx)
		if err != nil {
			return nil, err
		}
		res = merge(res, r)
	}
	return res, nil''','''		next, err := d(ctx)
		if err != nil {
			return nil, err
		}
		switch {
		case res == nil:
			res = next
		case next != nil:
			res = merge(res, next)
		}
	}
	return res, nil''')
ok('C39',RS,'''	s := ""
	for i, k := range sortedKeys {
		if i > 0 {
			s += ","
		}
		s += k + "=" + strconv.Quote(labels[k])
	}
	return s''','''	pairs := make([]string, 0, len(labels))
	for _, k := range sortedKeys {
		pairs = append(pairs, k+"="+strconv.Quote(labels[k]))
	}
	return strings.Join(pairs, ",")''')
ok('C39',RS,'''	s := ""
	for i, k := range sortedKeys {
		if i > 0 {
			s += ","
		}
		s += k + "=" + strconv.Quote(labels[k])
	}
	return s''','''	var sb strings.Builder
	for i, k := range sortedKeys {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(strconv.Quote(labels[k]))
	}
	return sb.String()''')
ok('C39',RS,'''		v := match[2]
		if v == "" {
			v = match[3]
		} else {
			var err error
			if v, err = strconv.Unquote(v); err != nil {
				return nil, fmt.Errorf("invalid label formatting, remainder: %s, err: %s", s, err)
			}
		}
		m[match[1]] = v''','''		v, err := strconv.Unquote(match[2])
		if err != nil {
			return nil, fmt.Errorf("invalid label formatting, remainder: %s, err: %s", s, err)
		}
		m[match[1]] = v''')

# ---------------- C10
B3='plugin/ochttp/propagation/b3/b3.go'; W3='plugin/ochttp/propagation/tracecontext/propagation.go'
SDP='exporter/stackdriver/propagation/http.go'; BINP='trace/propagation/propagation.go'; TMC='tag/map_codec.go'
bad('C10',B3,'err != nil || len(b) > 16','err != nil || len(b) > 17')
bad('C10',B3,'err != nil || len(b) > 8','err != nil')
bad('C10',W3,'	if len(sections) < 4 {','	if len(sections) < 3 {')
bad('C10',W3,'	if len(sections[0]) != 2 {','	if len(sections[0]) > 2 {')
bad('C10',W3,'	if len(sections[3]) != 2 {','	if len(sections[3]) > 2 {')
bad('C10',W3,'''		if len(kv) != 2 {
			return nil
		}''','''		if len(kv) > 2 {
			return nil
		}''')
bad('C10',W3,'''		if matches == nil {
			return nil
		}''','''		if pair == "" {
			return nil
		}''')
bad('C10',SDP,'	if slash == -1 {','	if slash == 0 {')
bad('C10',SDP,'''	if !strings.HasPrefix(h, "o=") {''','''	if !strings.HasPrefix(h, "o") {''')
bad('C10',SDP,'''	if semicolon != -1 {''','''	if semicolon != 0 {''')
bad('C10',BINP,'len(b) >= 17','len(b) >= 16')
bad('C10',BINP,'len(b) >= 9','len(b) >= 8')
bad('C10',BINP,'len(b) >= 2','len(b) >= 1')
bad('C10',BINP,'len(b) == 0 || b[0]','b[0]')
bad('C10',TMC,'''	if length > uint64(len(eg.buf)-valueStart) {''','''	if uint64(valueStart)+length > uint64(len(eg.buf)) {''')
bad('C10',TMC,'''	if length > uint64(len(eg.buf)-valueStart) {''','''	if int(length) > len(eg.buf)-valueStart {''')
bad('C10',TMC,'''	if valueStart <= 0 {''','''	if valueStart == 0 {''')
bad('C10',TMC,'''	if length > uint64(len(eg.buf)-valueStart) {''','''	if length > uint64(len(eg.buf)-valueStart+1) {''')
bad('C10',TMC,'''	for !eg.readEnded() {
		typ''','''	for eg.readIdx != len(eg.buf)+1 {
		typ''')
ok('C10',TMC,'''	if eg.readEnded() {
		return nil, fmt''','''	if false {
		return nil, fmt''')
ok('C10',B3,'err != nil || len(b) > 16','err != nil || len(tid) > 32')
ok('C10',TMC,'''	if length > uint64(len(eg.buf)-valueStart) {''','''	if rest := eg.buf[valueStart:]; length > uint64(len(rest)) {''')
ok('C10',BINP,'len(b) >= 17 && b[0] == 0','len(b) > 16 && 0 == b[0]')
ok('C10',SDP,'	if slash == -1 {','	if slash < 0 {')
ok('C10',W3,'''	for _, section := range sections[:4] {
		if strings''','''	for i := 0; i < 4; i++ {
		section := sections[i]
		if strings''')
ok('C10',BINP,'''	b = b[1:]
	if len(b) >= 17 && b[0] == 0 {
		copy(sc.TraceID[:], b[1:17])
		b = b[17:]
	} else {
		return trace.SpanContext{}, false
	}''','''	if len(b) < 18 || b[1] != 0 {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], b[2:])
	b = b[18:]''')

# ---------------- C11
bad('C11',B3,'err != nil || len(b) > 16','(err != nil && len(b) == 0) || len(b) > 16')
bad('C11',B3,'''	b, err := hex.DecodeString(sid)
	if err != nil || len(b) > 8 {
		return trace.SpanID{}, false
	}''','''	b, err := hex.DecodeString(sid)
	if err != nil {
		return trace.SpanID{}, false
	}
	if len(b) > 8 {
		b = b[len(b)-7:]
	}''')
bad('C11',B3,'''	if sid == "" {
		return trace.SpanID{}, false
	}''','')
bad('C11',B3,'''	sid, ok := ParseSpanID(req.Header.Get(SpanIDHeader))
	if !ok {
		return trace.SpanContext{}, false
	}''','''	sid, _ := ParseSpanID(req.Header.Get(SpanIDHeader))''')
bad('C11',B3,'''	sid, ok := ParseSpanID(req.Header.Get(SpanIDHeader))
	if !ok {
		return trace.SpanContext{}, false''','''	sid, ok := ParseSpanID(req.Header.Get(SpanIDHeader))
	if !ok {
		return trace.SpanContext{TraceID: tid}, false''')
bad('C11',B3,'start := 16 - len(b)','start := 0')
bad('C11',W3,'	if version > maxVersion {','	if version > maxVersion+1 {')
bad('C11',W3,'	if version == 0 && len(sections) != 4 {','	if version == 1 && len(sections) != 4 {')
bad('C11',W3,'	if len(sections[1]) != 32 {','	if len(sections[1]) > 32 {')
bad('C11',W3,'	if len(sections[2]) != 16 {','	if len(sections[2]) < 16 {')
bad('C11',W3,'''	copy(sc.SpanID[:], sid)

	if len(sections[3]) != 2 {''','''	copy(sc.SpanID[:], sid)

	if len(sections[3]) < 2 {''')
bad('C11',W3,'''	sid, err := hex.DecodeString(sections[2])
	if err != nil {
		return trace.SpanContext{}, false
	}''','''	sid, err := hex.DecodeString(sections[2])
	if err != nil {
		return sc, false
	}''')
bad('C11',W3,'''	sid, err := hex.DecodeString(sections[2])
	if err != nil {
		return trace.SpanContext{}, false
	}''','''	sid, _ := hex.DecodeString(sections[2])''')
bad('C11',W3,'== [16]byte{} || sc','== [16]byte{} && sc')
bad('C11',W3,'range sections[:4]','range sections[:3]')
bad('C11',W3,'range sections[:4]','range sections[1:4]')
bad('C11',W3,'''	if sc.TraceID == [16]byte{} || sc.SpanID == [8]byte{} {
		return trace.SpanContext{}, false''','''	if sc.TraceID == [16]byte{} || sc.SpanID == [8]byte{} {
		return sc, false''')
bad('C11',SDP,'err != nil || len(buf) != len(sc.TraceID)','err != nil || len(buf) > len(sc.TraceID)')
bad('C11',SDP,'err != nil || len(buf) != len(sc.TraceID)','len(buf) != len(sc.TraceID)')
bad('C11',SDP,'''	sid, err := strconv.ParseUint(spanstr, 10, 64)
	if err != nil {
		return trace.SpanContext{}, false''','''	sid, err := strconv.ParseUint(spanstr, 10, 64)
	if err != nil {
		return sc, false''')
bad('C11',SDP,'''	o, err := strconv.ParseUint(h[2:], 10, 32)
	if err != nil {
		return trace.SpanContext{}, false
	}''','''	o, _ := strconv.ParseUint(h[2:], 10, 32)''')
bad('C11',SDP,'h[2:], 10, 32','h[2:], 10, 64')
bad('C11',BINP,'|| b[0] != 0','')
bad('C11',BINP,'&& b[0] == 0 {','{')
bad('C11',BINP,'&& b[0] == 1 {','{')
bad('C11',BINP,'b[1:9]','b[2:9]')
bad('C11',BINP,'''	} else {
		return trace.SpanContext{}, false
	}
	if len(b) >= 9''','''	}
	if len(b) >= 9''')
ok('C11',W3,'''	for _, section := range sections[:4] {
		if strings''','''	for i := 0; i < 4; i++ {
		section := sections[i]
		if strings''')
ok('C11',W3,'''	for _, section := range sections[:4] {
		if strings.ToLower(section) != section {
			return trace.SpanContext{}, false
		}
	}
''','''	if strings.ToLower(tp) != tp {
		return trace.SpanContext{}, false
	}
''')
ok('C11',W3,'''	for _, section := range sections[:4] {
		if strings.ToLower(section) != section {
			return trace.SpanContext{}, false
		}
	}
''','''	if !lower(sections[:4]) {
		return trace.SpanContext{}, false
	}
''') if False else None
ok('C11',B3,'''	var traceID trace.TraceID
	if len(b) <= 8 {
		// The lower 64-bits.
		start := 8 + (8 - len(b))
		copy(traceID[start:], b)
	} else {
		start := 16 - len(b)
		copy(traceID[start:], b)
	}

	return traceID, true''','''	var traceID trace.TraceID
	copy(traceID[len(traceID)-len(b):], b)
	return traceID, true''')
ok('C11',BINP,'''	b = b[1:]
	if len(b) >= 17 && b[0] == 0 {
		copy(sc.TraceID[:], b[1:17])
		b = b[17:]
	} else {
		return trace.SpanContext{}, false
	}''','''	if len(b) < 18 || b[1] != 0 {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], b[2:])
	b = b[18:]''')
ok('C11',W3,'''	if len(sections[1]) != 32 {
		return trace.SpanContext{}, false
	}
	tid, err := hex.DecodeString(sections[1])
	if err != nil {''','''	tid, err := hex.DecodeString(sections[1])
	if err != nil || len(tid) != len(sc.TraceID) {''')
ok('C11',W3,'''	if sc.TraceID == [16]byte{} || sc.SpanID == [8]byte{} {''','''	if (sc.TraceID == trace.TraceID{}) || (sc.SpanID == trace.SpanID{}) {''')
ok('C11',B3,'''	tid, ok := ParseTraceID(req.Header.Get(TraceIDHeader))
	if !ok {
		return trace.SpanContext{}, false
	}
	sid, ok := ParseSpanID(req.Header.Get(SpanIDHeader))
	if !ok {
		return trace.SpanContext{}, false
	}''','''	tid, okT := ParseTraceID(req.Header.Get(TraceIDHeader))
	sid, okS := ParseSpanID(req.Header.Get(SpanIDHeader))
	if !okT || !okS {
		return sc, false
	}''')

# ---------------- C12
GCL='plugin/ocgrpc/trace_common.go'; GCS='plugin/ocgrpc/client_stats_handler.go'
bad('C12',B3,'	req.Header.Set(SpanIDHeader, hex.EncodeToString(sc.SpanID[:]))','	req.Header.Set(SpanIDHeader, hex.EncodeToString(sc.SpanID[:7]))')
bad('C12',B3,'	SpanIDHeader  = "X-B3-SpanId"','	SpanIDHeader  = "X-B3-Span-Id"')
bad('C12',B3,'case "true", "1":','case "true", "d":')
bad('C12',B3,'''		sampled = "1"
	} else {
		sampled = "0"''','''		sampled = "0"
	} else {
		sampled = "1"''')
bad('C12',W3,'''		[]byte{byte(sc.TraceOptions)})''','''		[]byte{byte(sc.TraceOptions & 1)})''')
bad('C12',W3,'''		sc.TraceID[:],
		sc.SpanID[:],''','''		sc.SpanID[:],
		sc.TraceID[:],''')
bad('C12',W3,'"%x-%x-%x-%x"','"%x-%X-%x-%x"')
bad('C12',W3,'strings.Join(pairs, ",")','strings.Join(pairs, ";")')
bad('C12',W3,'[]string{entry.Key, entry.Value}','[]string{entry.Value, entry.Key}')
bad('C12',W3,'if h != "" && len(h) <= maxTracestateLen','if h != "" && len(h) < maxTracestateLen')
bad('C12',W3,'opts, err := hex.DecodeString(sections[3])','opts, err := hex.DecodeString(sections[0])')
bad('C12',SDP,'"%s/%d;o=%d"','"%s/%d;o=%x"')
bad('C12',SDP,'sid := binary.BigEndian.Uint64(sc.SpanID[:])','sid := binary.LittleEndian.Uint64(sc.SpanID[:])')
bad('C12',SDP,'int64(sc.TraceOptions))','int64(int8(sc.TraceOptions)))')
bad('C12',SDP,'"%s/%d;o=%d", hex.EncodeToString(sc.TraceID[:]), sid,','"%s/%d;o=%d", hex.EncodeToString(sc.TraceID[:]), int64(sid),')
bad('C12',SDP,'strconv.ParseUint(spanstr, 10, 64)','strconv.ParseUint(spanstr, 0, 64)')
bad('C12',SDP,'spanstr, h = h[:semicolon], h[semicolon+1:]','spanstr, h = h[:semicolon], h[semicolon:]')
bad('C12',BINP,'	copy(b[19:27], sc.SpanID[:])','	copy(b[19:26], sc.SpanID[:])')
bad('C12',BINP,'	b[27] = 2\n','	b[27] = 3\n')
bad('C12',BINP,'	b[28] = uint8(sc.TraceOptions)','	b[28] = uint8(sc.TraceOptions & 1)')
bad('C12',BINP,'	if sc == (trace.SpanContext{}) {','	if sc.SpanID == (trace.SpanID{}) {')
bad('C12',BINP,'sc.TraceOptions = trace.TraceOptions(b[1])','sc.TraceOptions = trace.TraceOptions(b[0])')
bad('C12',BINP,'copy(sc.SpanID[:], b[1:9])','copy(sc.SpanID[:], b[0:8])')
bad('C12',TMC,'''	eg.growIfRequired(binary.MaxVarintLen64 + length)
	eg.writeIdx += binary.PutUvarint(eg.buf[eg.writeIdx:], uint64(length))
	copy(eg.buf[eg.writeIdx:], s)''','''	eg.growIfRequired(length)
	eg.writeIdx += binary.PutUvarint(eg.buf[eg.writeIdx:], uint64(length))
	copy(eg.buf[eg.writeIdx:], s)''')
bad('C12',TMC,'''		copy(tmp, eg.buf)''','''		copy(tmp, eg.buf[eg.readIdx+1:])''')
bad('C12',TMC,'''	if len(eg.buf)-eg.writeIdx < expected {
		tmp := make([]byte, 2*(len(eg.buf)+1)+expected)''','''	if len(eg.buf)-eg.writeIdx < expected {
		tmp := make([]byte, 2*(len(eg.buf)+1))''')
bad('C12',TMC,'''			eg.writeStringWithVarintLen(k.name)
			eg.writeBytesWithVarintLen([]byte(v.value))''','''			eg.writeBytesWithVarintLen([]byte(v.value))
			eg.writeStringWithVarintLen(k.name)''')
bad('C12',TMC,'	return eg.buf[:eg.writeIdx]\n','	return eg.buf\n')
bad('C12',TMC,'valueEnd := valueStart + int(length)','valueEnd := valueStart + int(uint8(length))')
bad('C12',TMC,'''	eg.readIdx = valueEnd
''','''	eg.readIdx = valueEnd + 0
	if length == 0 {
		eg.readIdx++
	}
''')
bad('C12',GCL,'string(traceContextBinary))','string(traceContextBinary[:28]))')
bad('C12',GCL,'md[traceContextKey]','md["grpc-trace"]')
bad('C12',GCL,'traceContext[0]','traceContext[len(traceContext)-1]')
bad('C12',GCS,'''	if ts != nil {
		encoded''','''	if ts != nil && d.method != "" {
		encoded''')
ok('C12',B3,'''	var sampled string
	if sc.IsSampled() {
		sampled = "1"
	} else {
		sampled = "0"
	}
	req''','''	sampled := "0"
	if sc.TraceOptions&1 == 1 {
		sampled = "1"
	}
	req''')
ok('C12',W3,'''strings.Join([]string{entry.Key, entry.Value}, "=")''','''entry.Key+"="+entry.Value''')
ok('C12',W3,'''	tp = fmt.Sprintf("%x-%x-%x-%x",
		[]byte{supportedVersion},
		sc.TraceID[:],
		sc.SpanID[:],
		[]byte{byte(sc.TraceOptions)})''','''	tp = fmt.Sprintf("00-%s-%x-%02x", sc.TraceID.String(), sc.SpanID[:], byte(sc.TraceOptions))''')
ok('C12',SDP,'''fmt.Sprintf("%s/%d;o=%d", hex.EncodeToString(sc.TraceID[:]), sid, int64(sc.TraceOptions))''','''fmt.Sprintf("%x/%d;o=%d", sc.TraceID[:], sid, uint32(sc.TraceOptions))''')
ok('C12',BINP,'''	copy(b[2:18], sc.TraceID[:])
	b[18] = 1
	copy(b[19:27], sc.SpanID[:])
	b[27] = 2
''','''	b[27], b[18] = 2, 1
	copy(b[2:], sc.TraceID[:])
	copy(b[19:], sc.SpanID[:])
''')
ok('C12',TMC,'''	if len(eg.buf)-eg.writeIdx < expected {
		tmp := make([]byte, 2*(len(eg.buf)+1)+expected)''','''	if eg.writeIdx+expected > len(eg.buf) {
		tmp := make([]byte, 2*len(eg.buf)+expected)''')
ok('C12',TMC,'''			eg.writeByte(byte(keyTypeString))
			eg.writeStringWithVarintLen(k.name)
			eg.writeBytesWithVarintLen([]byte(v.value))''','''			eg.writeTagString(k.name, v.value)''')
ok('C12',GCL,'''	traceContextBinary := propagation.Binary(span.SpanContext())
	return metadata.AppendToOutgoingContext(ctx, traceContextKey, string(traceContextBinary))''','''	hdr := string(propagation.Binary(span.SpanContext()))
	ctx = metadata.AppendToOutgoingContext(ctx, traceContextKey, hdr)
	return ctx''')
# ---- C17
SW='stats/view/worker.go'; SC='stats/view/worker_commands.go'; SV='stats/view/view.go'; SCO='stats/view/collector.go'; SAD='stats/view/aggregation_data.go'; SA='stats/view/aggregation.go'; SVM='stats/view/view_to_metric.go'
bad('C17',SW,'''	w.mu.Lock()
	defer w.mu.Unlock()
	now := time.Now()
	metrics''','''	now := time.Now()
	metrics''')
bad('C17',SW,'''	w.mu.Lock()
	defer w.mu.Unlock()
	now := time.Now()
	metrics''','''	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
	now := time.Now()
	metrics''')
bad('C17',SC,'''	w.mu.Lock()
	defer w.mu.Unlock()
	for _, m := range cmd.ms {''','''	w.mu.RLock()
	defer w.mu.RUnlock()
	for _, m := range cmd.ms {''')
bad('C17',[(SC,'''	w.mu.Lock()
	defer w.mu.Unlock()
	for _, m := range cmd.ms {''','''	for _, m := range cmd.ms {'''),(SC,'''			v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
		}
''','''			w.mu.Lock()
			v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
			w.mu.Unlock()
		}
''')]) if 0 else None
bad('C17',SW,'''func (w *worker) UnregisterExporter(e Exporter) {
	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
''','''func (w *worker) UnregisterExporter(e Exporter) {
	w.exportersMu.RLock()
	defer w.exportersMu.RUnlock()
''')
bad('C17',SW,'''	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
	for e := range w.exporters {
		e.ExportView(viewData)
	}''','''	for e := range w.exporters {
		e.ExportView(viewData)
	}''')
bad('C17',SW,'''func (w *worker) SetResource(r *resource.Resource) {
	w.mu.Lock()
	defer w.mu.Unlock()
''','''func (w *worker) SetResource(r *resource.Resource) {
''')
bad('C17',SV,'atomic.StoreUint32(&v.subscribed, 0)','v.subscribed = 0') if 0 else None
bad('C17',SV,'return atomic.LoadUint32(&v.subscribed) == 1','return v.subscribed == 1') if 0 else None
bad('C17',SW,'''func (w *worker) Find(name string) (v *View) {
''','''func (w *worker) Find(name string) (v *View) {
	if vi, ok := w.views[name]; ok {
		return vi.view
	}
''')
bad('C17',SW,'''func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attachments map[string]interface{}) {
''','''func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attachments map[string]interface{}) {
	if len(w.views) == 0 {
		return
	}
''')
bad('C17',SW,'''func (w *worker) unregisterView(v *viewInternal) {
	w.mu.Lock()
	defer w.mu.Unlock()
''','''func (w *worker) unregisterView(v *viewInternal) {
''')
bad('C17',SC,'''			w.mu.Lock()
			vi.clearRows()
			w.mu.Unlock()''','''			vi.clearRows()''')
bad('C17',SW,'''func (w *worker) SetReportingPeriod(d time.Duration) {
''','''func (w *worker) SetReportingPeriod(d time.Duration) {
	if d > 0 {
		w.timer.Stop()
		w.timer = time.NewTicker(d)
		return
	}
''')
bad('C17',SW,'	w.running = true\n','')
bad('C17',SW,'	if w.running || w.stopped {','	if w.stopped {')
bad('C17',SW,'''	w.running = true
	prodMgr := metricproducer.GlobalManager()''','''	w.stateMu.Unlock()
	w.stateMu.Lock()
	w.running = true
	prodMgr := metricproducer.GlobalManager()''')
bad('C17',SW,'''	metrics := make([]*metricdata.Metric, 0, len(w.views))
	for _, v := range w.views {
		metric := w.toMetric(v, now)''','''	metrics := make([]*metricdata.Metric, 0, len(w.views))
	views := w.views
	w.mu.Unlock()
	defer w.mu.Lock()
	for _, v := range views {
		metric := w.toMetric(v, now)''')
bad('C17',SV,'len(bounds) != len(v.Aggregation.Buckets)','len(bounds) <= len(v.Aggregation.Buckets)')
bad('C17','stats/measure.go','''	mu.Lock()
	defer mu.Unlock()

	if stored''','''	if stored''')
bad('C17','stats/measure.go','''	mu.Lock()
	defer mu.Unlock()

	if stored, ok := measures[name]; ok {
		return stored
	}
''','''	mu.RLock()
	stored, ok := measures[name]
	mu.RUnlock()
	if ok {
		return stored
	}
	mu.RLock()
	defer mu.RUnlock()
''')
bad('C17','stats/record.go','''		mu.Lock()
		measures[measure].subscribe()
		mu.Unlock()''','''		measures[measure].subscribe()''')
ok('C17',SW,'''	w.mu.Lock()
	defer w.mu.Unlock()
	now := time.Now()
	metrics''','''	w.mu.RLock()
	defer w.mu.RUnlock()
	now := time.Now()
	metrics''')
ok('C17',SW,'''func (w *worker) SetResource(r *resource.Resource) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.r = r
''','''func (w *worker) SetResource(r *resource.Resource) {
	w.mu.Lock()
	w.r = r
	w.mu.Unlock()
''')
ok('C17',SW,'''		select {
		case cmd := <-w.c:
			cmd.handleCommand(w)
		case <-w.timer.C:
			w.reportUsage()
		case <-w.quit:
			w.timer.Stop()
			close(w.done)
			return
		}
	}
}
''','''		if !w.step() {
			return
		}
	}
}

func (w *worker) step() bool {
	select {
	case cmd := <-w.c:
		cmd.handleCommand(w)
	case <-w.timer.C:
		w.reportUsage()
	case <-w.quit:
		w.timer.Stop()
		close(w.done)
		return false
	}
	return true
}
''')
ok('C17',SW,'''	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
	for e := range w.exporters {
		e.ExportView(viewData)
	}''','''	w.exportersMu.RLock()
	defer w.exportersMu.RUnlock()
	for e := range w.exporters {
		e.ExportView(viewData)
	}''')
# ---- C18
bad('C18',SC,'''	if v == nil {
		cmd.c <- &getViewByNameResp{nil}
		return
	}''','''	if v == nil {
		return
	}''')
bad('C18',SC,'''			cmd.err <- err
			return
''','''			cmd.err <- err
''')
bad('C18',SC,'''			cmd.err <- err
			return
''','''			return
''')
bad('C18',SC,'''	} else {
		cmd.err <- nil
	}''','''	}''')
bad('C18',SC,'''			fmt.Errorf("cannot retrieve data; view %q has no subscriptions or collection is not forcibly started", cmd.v),
		}
		return''','''			fmt.Errorf("cannot retrieve data; view %q has no subscriptions or collection is not forcibly started", cmd.v),
		}''')
bad('C18',SC,'''		if !ok {
			continue
		}

		// Report''','''		if !ok {
			return
		}

		// Report''')
bad('C18',SC,'	cmd.done <- struct{}{}\n','	if len(cmd.views) > 0 {\n		cmd.done <- struct{}{}\n	}\n')
bad('C18',SC,'''		w.timer = time.NewTicker(defaultReportingDuration)
	} else {''','''		w.timer = time.NewTicker(defaultReportingDuration)
		return
	} else {''')
bad('C18',SW,'''	select {
	case <-req.done:
	case <-w.done:
	}
''','''	if len(names) > 0 {
		select {
		case <-req.done:
		case <-w.done:
		}
	}
''')
bad('C18',SW,'''	select {
	case err := <-req.err:
		return err
	case <-w.done:
		return errStopped
	}''','''	select {
	case err := <-req.err:
		return err
	case <-w.done:
		return errStopped
	case <-time.After(time.Second):
		return errors.New("timed out")
	}''')
bad('C18',SC,'''	cmd.c <- true
''','''	select {
	case cmd.c <- true:
	default:
	}
''')
bad('C18',SW,'''	select {
	case resp := <-req.c:
		return resp.v
	case <-w.done:
		return nil
	}''','''	select {
	case resp := <-req.c:
		return resp.v
	case <-w.done:
		return nil
	default:
		return nil
	}''')
ok('C18',SC,'''	v := w.views[cmd.name]
	if v == nil {
		cmd.c <- &getViewByNameResp{nil}
		return
	}
	cmd.c <- &getViewByNameResp{v.view}''','''	resp := &getViewByNameResp{}
	if v := w.views[cmd.name]; v != nil {
		resp.v = v.view
	}
	cmd.c <- resp''')
ok('C18',SC,'''	if len(errstr) > 0 {
		cmd.err <- errors.New(strings.Join(errstr, "\\n"))
	} else {
		cmd.err <- nil
	}''','''	var err error
	if len(errstr) > 0 {
		err = errors.New(strings.Join(errstr, "\\n"))
	}
	cmd.err <- err''')
ok('C18',SC,'''	for _, name := range cmd.views {
		vi, ok := w.views[name]''','''	defer func() { cmd.done <- struct{}{} }()
	for _, name := range cmd.views {
		vi, ok := w.views[name]''') if 0 else None
ok('C18',SW,'		c:    make(chan *getViewByNameResp),','		c:    make(chan *getViewByNameResp, 1),')
# ---- C23
bad('C23',SW,'''	select {
	case w.c <- cmd:
	case <-w.done:
	}''','''	w.c <- cmd''')
bad('C23',SW,'''	select {
	case <-req.done:
	case <-w.done:
	}
''','''	<-req.done
''')
bad('C23',SW,'''	select {
	case resp := <-req.c:
		return resp.rows, resp.err
	case <-w.done:
		return nil, errStopped
	}''','''	resp := <-req.c
	return resp.rows, resp.err''')
bad('C23',SW,'			close(w.done)\n			return','			close(w.c)\n			close(w.done)\n			return')
bad('C23',SW,'''	if !w.stopped {
		w.stopped = true
		close(w.quit)''','''	if !w.stopped {
		close(w.quit)''')
bad('C23',SW,'''			w.timer.Stop()
			close(w.done)
			return''','''			w.timer.Stop()
			return''')
bad('C23',SW,'''		if !w.running {
			close(w.done)
		}
''','')
bad('C23',SW,'''	if w.running || w.stopped {''','''	if w.running {''')
bad('C23',SW,'''	prodMgr.AddProducer(w)
	w.stateMu.Unlock()
''','''	w.stateMu.Unlock()
	prodMgr.AddProducer(w)
''')
bad('C23',SW,'''	prodMgr := metricproducer.GlobalManager()
	prodMgr.DeleteProducer(w)
	w.stateMu.Unlock()
	<-w.done''','''	w.stateMu.Unlock()
	<-w.done''')
bad('C23',SW,'''		if !w.running {
			close(w.done)
		}
	}
	prodMgr := metricproducer.GlobalManager()
	prodMgr.DeleteProducer(w)
	w.stateMu.Unlock()''','''		if !w.running {
			close(w.done)
		} else {
			metricproducer.GlobalManager().DeleteProducer(defaultWorker)
		}
	}
	w.stateMu.Unlock()''')
bad('C23',SW,'''	w.stateMu.Unlock()
	<-w.done''','''	running := w.running
	w.stateMu.Unlock()
	if running {
		<-w.done
	}''') if 0 else None
bad('C23',SW,'''	if !w.stopped {
		w.stopped = true
		close(w.quit)''','''	if w.running && !w.stopped {
		w.stopped = true
		close(w.quit)''')
bad('C23',SW,'''	w.stateMu.Lock()
	if !w.stopped {
		w.stopped = true''','''	w.stateMu.Lock()
	stopped := w.stopped
	w.stateMu.Unlock()
	w.stateMu.Lock()
	if !stopped {
		w.stopped = true''')
bad('C23',SW,'''			w.timer.Stop()
			close(w.done)
			return''','''			w.timer.Stop()
			close(w.done)
			w.running = false
			return''')
bad('C23',SW,'''	select {
	case <-req.c: // don't return until the timer is set to the new duration.
	case <-w.done:
	}''','''	select {
	case <-req.c: // don't return until the timer is set to the new duration.
	case <-w.quit:
	}''')
ok('C23',SW,'''	w.stateMu.Lock()
	if !w.stopped {
		w.stopped = true
		close(w.quit)
		if !w.running {
			close(w.done)
		}
	}
	prodMgr := metricproducer.GlobalManager()
	prodMgr.DeleteProducer(w)
	w.stateMu.Unlock()
	<-w.done''','''	w.halt()
	<-w.done
}

func (w *worker) halt() {
	w.stateMu.Lock()
	defer w.stateMu.Unlock()
	metricproducer.GlobalManager().DeleteProducer(w)
	if w.stopped {
		return
	}
	w.stopped = true
	close(w.quit)
	if !w.running {
		close(w.done)
	}''')
ok('C23',SW,'''	w.send(req)
	select {
	case err := <-req.err:''','''	select {
	case w.c <- req:
	case <-w.done:
		return errStopped
	}
	select {
	case err := <-req.err:''')
# ---- C19
SR='stats/record.go'; TE='internal/tagencoding/tagencoding.go'; SM='stats/measure.go'
bad('C19',SC,'''		if (m == stats.Measurement{}) { // not registered
			continue''','''		if (m == stats.Measurement{}) { // not registered
			break''')
bad('C19',SC,'		if (m == stats.Measurement{}) { // not registered','		if m.Value() == 0 { // not registered')
bad('C19',SC,'''			v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
''','''			v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
			if len(ref.views) > 64 {
				break
			}
''')
bad('C19',SC,'v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)','v.addSample(cmd.tm, cmd.ms[0].Value(), cmd.attachments, cmd.t)')
bad('C19',SC,'v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)','v.addSample(cmd.tm, m.Value(), cmd.attachments, time.Now())')
bad('C19',SC,'		ref := w.getMeasureRef(m.Measure().Name())','		ref := w.getMeasureRef(cmd.ms[0].Measure().Name())')
bad('C19',SCO,'''		c.signatures[s] = aggregator
''','''		if len(c.signatures) < 1000 {
			c.signatures[s] = aggregator
		}
''')
bad('C19',SCO,'	if !ok {\n		aggregator = c.a','	if !ok || v < 0 {\n		aggregator = c.a')
bad('C19',SCO,'''		v, _ := m.Value(k)
		vb.WriteValue([]byte(v))''','''		v, ok := m.Value(k)
		if !ok {
			continue
		}
		vb.WriteValue([]byte(v))''')
bad('C19',SCO,'''		v, _ := m.Value(k)
		vb.WriteValue([]byte(v))''','''		v, _ := m.Value(keys[0])
		_ = k
		vb.WriteValue([]byte(v))''')
bad('C19',SCO,'''	for _, k := range keys {
		v, _ := m.Value(k)''','''	for i, k := range keys {
		if i > 15 {
			break
		}
		v, _ := m.Value(k)''')
bad('C19',SCO,'''		v := vb.ReadValue()
		if v != nil {''','''		if len(tags) == 8 {
			continue
		}
		v := vb.ReadValue()
		if v != nil {''')
bad('C19',SCO,'''		if v != nil {
			tags''','''		if len(v) > 1 {
			tags''')
bad('C19',SCO,'			tags = append(tags, tag.Tag{Key: k, Value','			k = keys[len(tags)]\n			tags = append(tags, tag.Tag{Key: k, Value')
bad('C19',SV,'''	if !v.isSubscribed() {
		return
	}
	sig''','''	if !v.isSubscribed() || m == nil {
		return
	}
	sig''')
bad('C19',SW,'''		t:           time.Now(),
	}
	w.send(req)''','''		t:           time.Now(),
	}
	if len(w.c) == cap(w.c) {
		return
	}
	w.send(req)''')
bad('C19',SW,'''	case w.c <- cmd:
	case <-w.done:
	}''','''	case w.c <- cmd:
	case <-w.done:
	default:
	}''')
bad('C19',SW,'''		attachments: attachments,
		t: ''','''		t: ''')
bad('C19',SR,'''	recorder(tag.FromContext(ctx), ms, nil)''','''	recorder(tag.FromContext(ctx), ms[:1], nil)''')
bad('C19',SR,'''		if m.desc.subscribed() {
			record = true
			break
		}
	}
	if !record {
		return
''','''		if !m.desc.subscribed() {
			record = false
			break
		}
		record = true
	}
	if !record {
		return
''')
bad('C19',SR,'''		if m.desc.subscribed() {
			record = true
			break
		}
	}
	if !record {
		return nil
''','''		record = m.desc.subscribed()
	}
	if !record {
		return nil
''')
bad('C19',SR,'''	if recorder == nil {
		return nil''','''	if recorder == nil || len(o.attachments) > 0 && len(o.mutators) > 0 {
		return nil''')
bad('C19',SR,'			return err\n','			ctx, err = tag.New(ctx)\n')
bad('C19',SR,'		if ctx, err = tag.New(ctx, o.mutators...); err != nil {\n			return err\n		}','		if _, err = tag.New(ctx, o.mutators...); err != nil {\n			return err\n		}')
bad('C19',SR,'	recorder(tag.FromContext(ctx), o.measurements, o.attachments)','	recorder(tag.FromContext(ctx), o.measurements, nil)')
bad('C19',SR,'	if len(o.mutators) > 0 {','	if len(o.mutators) > 1 {')
bad('C19',TE,'	length := len(v) & 0xff','	length := len(v) & 0x7f')
bad('C19',TE,'	vb.WriteIndex += length\n','	vb.WriteIndex += length\n	if length > 200 {\n		vb.WriteIndex--\n	}\n')
bad('C19',TE,'	vb.ReadIndex = endIdx','	vb.ReadIndex = endIdx - length')
bad('C19',TE,'	vb.ReadIndex++\n	if length == 0 {','	if length == 0 {')
bad('C19',SW,'	ref := w.getMeasureRef(vi.view.Measure.Name())','	ref := w.getMeasureRef(vi.view.Name)')
bad('C19',SC,'		internal.SubscriptionReporter(view.Measure.Name())\n','		if len(w.views) == 1 {\n			internal.SubscriptionReporter(view.Measure.Name())\n		}\n')
bad('C19',SC,'		internal.SubscriptionReporter(view.Measure.Name())\n','		internal.SubscriptionReporter(view.Name)\n')
bad('C19',SC,'		vi.subscribe()\n','		if vi.view == view {\n			vi.subscribe()\n		}\n		if view.Description == "" {\n			break\n		}\n')
bad('C19','stats/measure_int64.go','		v:    float64(v),','		v:    float64(int32(v)),')
ok('C19',SCO,'''		v, _ := m.Value(k)
		vb.WriteValue([]byte(v))''','''		v, ok := m.Value(k)
		if !ok {
			v = ""
		}
		vb.WriteValue([]byte(v))''')
ok('C19',[(SR,'''	record := false
	for _, m := range ms {
		if m.desc.subscribed() {
			record = true
			break
		}
	}
	if !record {
		return
	}
''','''	if !anySubscribed(ms) {
		return
	}
'''),(SR,'''// RecordWithTags records one''','''func anySubscribed(ms []Measurement) bool {
	for i := range ms {
		if ms[i].desc.subscribed() {
			return true
		}
	}
	return false
}

// RecordWithTags records one''')])
ok('C19',SCO,'''	aggregator, ok := c.signatures[s]
	if !ok {
		aggregator = c.a.newData(t)
		c.signatures[s] = aggregator
	}
	aggregator.addSample(v, attachments, t)''','''	if existing, ok := c.signatures[s]; ok {
		existing.addSample(v, attachments, t)
		return
	}
	aggregator := c.a.newData(t)
	c.signatures[s] = aggregator
	aggregator.addSample(v, attachments, t)''')
ok('C19',SC,'''		ref := w.getMeasureRef(m.Measure().Name())
		for v := range ref.views {
			v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
		}''','''		ref, ok := w.measures[m.Measure().Name()]
		if !ok {
			continue
		}
		for v := range ref.views {
			v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
		}''')
ok('C19',SC,'''		if (m == stats.Measurement{}) { // not registered
			continue
		}
''','''		if m.Measure() == nil { // not registered
			continue
		}
''')
ok('C19',SCO,'''	for _, k := range keys {
		v := vb.ReadValue()
		if v != nil {
			tags = append(tags, tag.Tag{Key: k, Value: string(v)})
		}
	}''','''	for i := 0; i < len(keys); i++ {
		value := vb.ReadValue()
		if len(value) == 0 {
			continue
		}
		tags = append(tags, tag.Tag{Key: keys[i], Value: string(value)})
	}''')
# ---- C20
bad('C20',SAD,'	c.CountPerBucket = append([]int64(nil), a.CountPerBucket...)\n','')
bad('C20',SAD,'	c.ExemplarsPerBucket = append([]*metricdata.Exemplar(nil), a.ExemplarsPerBucket...)\n','')
bad('C20',SAD,'append([]int64(nil), a.CountPerBucket...)','append(a.CountPerBucket[:0], a.CountPerBucket...)')
bad('C20',SAD,'append([]int64(nil), a.CountPerBucket...)','append([]int64(nil), a.CountPerBucket[:len(a.bounds)]...)')
bad('C20',SAD,'	return &CountData{Value: a.Value, Start: a.Start}','	return a')
bad('C20',SAD,'	return &SumData{Value: a.Value, Start: a.Start}','	if a.Value == 0 {\n		return a\n	}\n	return &SumData{Value: a.Value, Start: a.Start}')
bad('C20',SAD,'	return &SumData{Value: a.Value, Start: a.Start}','	return &SumData{Value: a.Value}')
bad('C20',SCO,'Data: aggregator.clone()}','Data: aggregator}')
bad('C20',SCO,'''		row := &Row{Tags: tags, Data: aggregator.clone()}''','''		data := aggregator.clone()
		row := &Row{Tags: tags, Data: data}
		c.signatures[sig] = data''')
bad('C20',SAD,'''	if exemplar := getExemplar(v, attachments, t); exemplar != nil {
		a.ExemplarsPerBucket[i] = exemplar
	}''','''	if exemplar := getExemplar(v, attachments, t); exemplar != nil {
		if old := a.ExemplarsPerBucket[i]; old != nil {
			*old = *exemplar
		} else {
			a.ExemplarsPerBucket[i] = exemplar
		}
	}''')
bad('C20',[(SCO,'''	a *Aggregation
''','''	a *Aggregation
	rows []*Row
'''),(SCO,'	rows := make([]*Row, 0, len(c.signatures))\n','	rows := c.rows[:0]\n'),(SCO,'	return rows\n','	c.rows = rows\n	return rows\n'),(SV,'&collector{make(map[string]AggregationData), v.Aggregation}','&collector{signatures: make(map[string]AggregationData), a: v.Aggregation}')])
bad('C20',SV,'''			return bounds[i:]''','''			return append(bounds[:0], bounds[i:]...)''')
bad('C20',[(SAD,'''	c := *a
	c.CountPerBucket = append([]int64(nil), a.CountPerBucket...)
	c.ExemplarsPerBucket = append([]*metricdata.Exemplar(nil), a.ExemplarsPerBucket...)
	return &c''','''	c := &DistributionData{
		Count:              a.Count,
		Min:                a.Min,
		Max:                a.Max,
		Mean:               a.Mean,
		CountPerBucket:     append([]int64(nil), a.CountPerBucket...),
		ExemplarsPerBucket: append([]*metricdata.Exemplar(nil), a.ExemplarsPerBucket...),
		bounds:             a.bounds,
		Start:              a.Start,
	}
	return c''')])
ok('C20',[(SAD,'''	c := *a
	c.CountPerBucket = append([]int64(nil), a.CountPerBucket...)
	c.ExemplarsPerBucket = append([]*metricdata.Exemplar(nil), a.ExemplarsPerBucket...)
	return &c''','''	c := &DistributionData{
		Count:              a.Count,
		Min:                a.Min,
		Max:                a.Max,
		Mean:               a.Mean,
		SumOfSquaredDev:    a.SumOfSquaredDev,
		CountPerBucket:     make([]int64, len(a.CountPerBucket)),
		ExemplarsPerBucket: make([]*metricdata.Exemplar, len(a.ExemplarsPerBucket)),
		bounds:             a.bounds,
		Start:              a.Start,
	}
	copy(c.CountPerBucket, a.CountPerBucket)
	for i, e := range a.ExemplarsPerBucket {
		c.ExemplarsPerBucket[i] = e
	}
	return c''')])
ok('C20',[(SCO,'''		row := &Row{Tags: tags, Data: aggregator.clone()}
		rows = append(rows, row)''','''		rows = append(rows, newRow(tags, aggregator.clone()))'''),(SCO,'''func (c *collector) clearRows''','''func newRow(tags []tag.Tag, data AggregationData) *Row {
	return &Row{Tags: tags, Data: data}
}

func (c *collector) clearRows''')])
ok('C20',SAD,'	c := *a\n','	c := *a\n	c.bounds = append([]float64(nil), a.bounds...)\n')
ok('C20',SAD,'''		buckets := []metricdata.Bucket{}
		for i''','''		buckets := make([]metricdata.Bucket, 0, len(a.CountPerBucket))
		for i''')
# ---- C21
AG='stats/view/aggregation.go'
bad('C21',SAD,'		if v < b {','		if v <= b {')
bad('C21',SAD,'		i = len(a.bounds)\n','		i = 0\n')
bad('C21',SAD,'	*count++\n','	if v >= 0 {\n		*count++\n	}\n')
bad('C21',SAD,'	if a.Count == 1 {\n		a.Mean = v','	if a.Count == 1 {\n		a.Mean = 0')
bad('C21',SAD,'(v-a.Mean)/float64(a.Count)','(v-a.Mean)/float64(a.Count-1)')
bad('C21',SAD,'(v-oldMean)*(v-a.Mean)','(v-oldMean)*(v-oldMean)')
bad('C21',SAD,'	if v > a.Max {','	if v > a.Min {')
bad('C21',SAD,'''	if v < a.Min {
		a.Min = v
	}
	if v > a.Max {
		a.Max = v
	}''','''	if v < a.Min {
		a.Min = v
	} else if v > a.Max {
		a.Max = v
	}''')
bad('C21',SAD,'	a.Count++\n	a.addToBucket(v, attachments, t)','	a.addToBucket(v, attachments, t)\n	if len(a.bounds) > 0 && v < 0 {\n		return\n	}\n	a.Count++')
bad('C21',SAD,'-math.MaxFloat64','math.SmallestNonzeroFloat64')
bad('C21',SAD,'bucketCount := len(agg.Buckets) + 1','bucketCount := len(agg.Buckets)')
bad('C21',SAD,'	a.Value += v','	if v > 0 {\n		a.Value += v\n	}')
bad('C21',SAD,'	l.Value = v','	if v != 0 {\n		l.Value = v\n	}')
bad('C21',SAD,'a.Mean * float64(a.Count)','a.Mean * float64(len(a.CountPerBucket))')
bad('C21',SAD,'				Exemplar: a.ExemplarsPerBucket[i],','				Exemplar: a.ExemplarsPerBucket[len(a.ExemplarsPerBucket)-1-i],')
bad('C21',SAD,'i < len(a.CountPerBucket); i++','i < len(a.bounds); i++')
bad('C21',SAD,'		a.ExemplarsPerBucket[i] = exemplar','		a.ExemplarsPerBucket[len(a.bounds)] = exemplar')
bad('C21',SVM,'''		case *stats.Float64Measure:
			return metricdata.TypeCumulativeInt64''','''		case *stats.Float64Measure:
			return metricdata.TypeCumulativeFloat64''')
bad('C21',SVM,'		return metricdata.TypeCumulativeDistribution','		return metricdata.TypeGaugeDistribution')
bad('C21',SVM,'	case "ms":\n','	case "s":\n')
bad('C21',SVM,'			labelValues = append(labelValues, metricdata.LabelValue{})\n','')
bad('C21',SVM,'		labelKeys = append(labelKeys, metricdata.LabelKey{Key: k.Name()})','		labelKeys = append([]metricdata.LabelKey{{Key: k.Name()}}, labelKeys...)')
bad('C21',SVM,'		if val, ok := tagMap[key.Key]; ok {','		if val, ok := tagMap[key.Key]; ok && val != "null" {')
bad('C21',AG,'			return &SumData{Start: t}','			return &CountData{Start: t}')
bad('C21',AG,'''	agg.newData = func(t time.Time) AggregationData {
		return newDistributionData(agg, t)''','''	agg.newData = func(t time.Time) AggregationData {
		return newDistributionData(&Aggregation{Buckets: bounds}, t)''')
bad('C21',SAD,'''	case metricdata.TypeGaugeInt64:
		return metricdata.NewInt64Point(t, int64(l.Value))
''','')
ok('C21',SAD,'''	var count *int64
	var i int
	var b float64
	for i, b = range a.bounds {
		if v < b {
			count = &a.CountPerBucket[i]
			break
		}
	}
	if count == nil { // Last bucket.
		i = len(a.bounds)
		count = &a.CountPerBucket[i]
	}
	*count++
''','''	i := len(a.bounds)
	for j, b := range a.bounds {
		if v < b {
			i = j
			break
		}
	}
	a.CountPerBucket[i]++
''')
ok('C21',SAD,'''	var count *int64
	var i int
	var b float64
	for i, b = range a.bounds {
		if v < b {
			count = &a.CountPerBucket[i]
			break
		}
	}
	if count == nil { // Last bucket.
		i = len(a.bounds)
		count = &a.CountPerBucket[i]
	}
	*count++
''','''	i := 0
	for i < len(a.bounds) && v >= a.bounds[i] {
		i++
	}
	a.CountPerBucket[i]++
''')
ok('C21',[(SAD,'''	var count *int64
	var i int
	var b float64
	for i, b = range a.bounds {
		if v < b {
			count = &a.CountPerBucket[i]
			break
		}
	}
	if count == nil { // Last bucket.
		i = len(a.bounds)
		count = &a.CountPerBucket[i]
	}
	*count++
''','''	i := bucketOf(a.bounds, v)
	a.CountPerBucket[i]++
'''),(SAD,'func getExemplar(','''func bucketOf(bounds []float64, v float64) int {
	for i, b := range bounds {
		if v < b {
			return i
		}
	}
	return len(bounds)
}

func getExemplar(''')])
ok('C21',SAD,'''	oldMean := a.Mean
	a.Mean = a.Mean + (v-a.Mean)/float64(a.Count)
	a.SumOfSquaredDev = a.SumOfSquaredDev + (v-oldMean)*(v-a.Mean)''','''	delta := v - a.Mean
	a.Mean += delta / float64(a.Count)
	a.SumOfSquaredDev += delta * (v - a.Mean)''')
ok('C21',SAD,'''	if v < a.Min {
		a.Min = v
	}
	if v > a.Max {
		a.Max = v
	}''','''	a.Min = math.Min(a.Min, v)
	a.Max = math.Max(a.Max, v)''')
ok('C21',SAD,'''		buckets := []metricdata.Bucket{}
		for i := 0; i < len(a.CountPerBucket); i++ {
			buckets = append(buckets, metricdata.Bucket{
				Count:    a.CountPerBucket[i],
				Exemplar: a.ExemplarsPerBucket[i],
			})
		}''','''		buckets := make([]metricdata.Bucket, len(a.CountPerBucket))
		for i, n := range a.CountPerBucket {
			buckets[i] = metricdata.Bucket{Count: n, Exemplar: a.ExemplarsPerBucket[i]}
		}''')
ok('C21',SVM,'''		switch m.(type) {
		case *stats.Int64Measure:
			return metricdata.TypeCumulativeInt64
		case *stats.Float64Measure:
			return metricdata.TypeCumulativeInt64
		default:
			panic("unexpected measure type")
		}''','''		return metricdata.TypeCumulativeInt64''')
ok('C21',SVM,'''		if val, ok := tagMap[key.Key]; ok {
			labelValues = append(labelValues, metricdata.NewLabelValue(val))
		} else {
			labelValues = append(labelValues, metricdata.LabelValue{})
		}''','''		var lv metricdata.LabelValue
		if val, ok := tagMap[key.Key]; ok {
			lv = metricdata.NewLabelValue(val)
		}
		labelValues = append(labelValues, lv)''')
# ---- C22
bad('C22',SC,'''	for _, v := range cmd.views {
		if err := v.canonicalize(); err != nil {
			cmd.err <- err
			return
		}
	}
	var errstr []string
	for _, view := range cmd.views {
''','''	var errstr []string
	for _, view := range cmd.views {
		if err := view.canonicalize(); err != nil {
			cmd.err <- err
			return
		}
''')
bad('C22',SC,'''		if err := v.canonicalize(); err != nil {
			cmd.err <- err
			return
		}
	}''','''		if err := v.canonicalize(); err != nil {
			cmd.err <- nil
			return
		}
	}''')
bad('C22',SC,'''	for _, v := range cmd.views {
		if err := v.canonicalize(); err != nil {''','''	for _, v := range cmd.views[:1] {
		if err := v.canonicalize(); err != nil {''')
bad('C22',SC,'''			errstr = append(errstr, fmt.Sprintf("%s: %v", view.Name, err))
			continue''','''			continue''')
bad('C22',SC,'''			errstr = append(errstr, fmt.Sprintf("%s: %v", view.Name, err))
			continue''','''			errstr = append(errstr, fmt.Sprintf("%s: %v", view.Name, err))
			break''')
bad('C22',SC,'''	if len(errstr) > 0 {''','''	if len(errstr) > 1 {''')
bad('C22',SC,'''	if len(errstr) > 0 {''','''	if len(errstr) == len(cmd.views) {''')
bad('C22',SW,'''		if !x.view.same(vi.view) {''','''		if x.view != nil && !x.view.same(vi.view) && x.view.Measure != vi.view.Measure {''')
bad('C22',SW,'''		return x, nil
	}
	w.views''','''		w.viewStartTimes[x] = time.Now()
		return x, nil
	}
	w.views''')
bad('C22',SW,'''		return x, nil
	}
	w.views''','''		x.clearRows()
		return x, nil
	}
	w.views''')
bad('C22',SW,'''		return x, nil
	}
	w.views''','''		if x.isSubscribed() {
			return x, nil
		}
	}
	w.views''')
bad('C22',SW,'''		if !x.view.same(vi.view) {''','''		if !x.view.same(vi.view) && x.isSubscribed() {''')
bad('C22',SW,'''	w.views[vi.view.Name] = vi
''','''	w.views[vi.view.Measure.Name()] = vi
''')
bad('C22',SW,'''	ref := w.getMeasureRef(vi.view.Measure.Name())
	ref.views[vi]''','''	ref := w.getMeasureRef(vi.view.Name)
	ref.views[vi]''')
bad('C22',SW,'''	delete(w.views, v.view.Name)
''','''	if len(w.measures) > 0 {
		delete(w.views, v.view.Name)
	}
''')
bad('C22',SW,'''	if measure := w.measures[v.view.Measure.Name()]; measure != nil {
		delete(measure.views, v)
	}''','''	if measure := w.measures[v.view.Name]; measure != nil {
		delete(measure.views, v)
	}''')
bad('C22',SW,'''	if measure := w.measures[v.view.Measure.Name()]; measure != nil {
		delete(measure.views, v)
	}''','''	if measure := w.measures[v.view.Measure.Name()]; measure != nil && len(measure.views) > 1 {
		delete(measure.views, v)
	}''')
bad('C22',SC,'''		// Report pending data for this view before removing it.
		w.reportView(vi)

		vi.unsubscribe()
''','''		vi.unsubscribe()
		w.reportView(vi)
''')
bad('C22',SC,'''		// Report pending data for this view before removing it.
		w.reportView(vi)

		vi.unsubscribe()
		if !vi.isSubscribed() {
			// this was the last subscription and view is not collecting anymore.
			// The collected data can be cleared.
			w.mu.Lock()
			vi.clearRows()
			w.mu.Unlock()
		}
''','''		w.mu.Lock()
		rows := vi.collectedRows()
		vi.clearRows()
		w.mu.Unlock()
		if len(rows) > 0 {
			w.reportView(vi)
		}
		vi.unsubscribe()
''')
bad('C22',SC,'''		w.reportView(vi)

''','''		if len(cmd.views) == 1 {
			w.reportView(vi)
		}
''')
bad('C22',SC,'''		vi, ok := w.views[name]
		if !ok {
			continue
		}
''','''		vi, ok := w.views[name]
		if !ok {
			break
		}
''')
bad('C22',SC,'''		vi.unsubscribe()
		if !''','''		if !''')
bad('C22',SW,'''	for e := range w.exporters {
		e.ExportView(viewData)
	}''','''	for e := range w.exporters {
		e.ExportView(viewData)
		break
	}''')
bad('C22',SV,'''	if v.Measure.Name() != other.Measure.Name() || v.Aggregation.Type != other.Aggregation.Type {''','''	if v.Aggregation.Type != other.Aggregation.Type {''')
bad('C22',SV,'''	if v.Measure.Name() != other.Measure.Name() || v.Aggregation.Type != other.Aggregation.Type {''','''	if v.Measure.Name() != other.Measure.Name() {''')
bad('C22',SV,'''	if v.Measure.Name() != other.Measure.Name() || v.Aggregation.Type != other.Aggregation.Type {''','''	if v.Measure.Name() != other.Measure.Name() && v.Aggregation.Type != other.Aggregation.Type {''')
bad('C22',SV,'''		if v.TagKeys[i].Name() != other.TagKeys[i].Name() {
			return false
		}
	}''','''		if v.TagKeys[i].Name() == other.TagKeys[i].Name() {
			return true
		}
	}''')
bad('C22',SV,'''len(v.TagKeys) != len(other.TagKeys) || len(v''','''len(v.TagKeys) < len(other.TagKeys) || len(v''')
bad('C22',SV,'''		if v.Aggregation.Buckets[i] != other.Aggregation.Buckets[i] {
			return false
		}''','''		if i > 0 && v.Aggregation.Buckets[i] != other.Aggregation.Buckets[i] {
			return false
		}''')
bad('C22',SV,'''	if v.Aggregation == nil {
		return fmt.Errorf("cannot register view %q: aggregation not set", v.Name)
	}
''','''	if v.Aggregation == nil {
		v.Aggregation = Count()
		return nil
	}
''')
bad('C22',SV,'''	if err := checkViewName(v.Name); err != nil {
		return err
	}
''','''	if err := checkViewName(v.Name); err != nil && v.Description != v.Name {
		return err
	}
''')
bad('C22',SV,'''	if len(name) > maxNameLength {''','''	if len(name) > maxNameLength+1 {''')
bad('C22',SV,'''		if !(r >= ' ' && r <= '~') {''','''		if !(r >= ' ') {''')
bad('C22',SV,'''		if !(r >= ' ' && r <= '~') {
			return false
		}
	}
	return true''','''		if r >= ' ' && r <= '~' {
			return true
		}
	}
	return false''')
bad('C22',SV,'''	for _, b := range v.Aggregation.Buckets {
		if b < 0 {''','''	for i, b := range v.Aggregation.Buckets {
		if b < 0 && i > 0 {''')
bad('C22',SV,'''		return ErrNegativeBucketBounds
	''','''		return nil
	''')
bad('C22',SV,'''		collector:        &collector{make(map[string]AggregationData), v.Aggregation},''','''		collector:        &collector{make(map[string]AggregationData), Count()},''')
bad('C22',SW,'''	for i := range views {
		names[i] = views[i].Name
	}''','''	for i := range views[1:] {
		names[i] = views[i].Name
	}''')
bad('C22',SW,'''	case err := <-req.err:
		return err''','''	case <-req.err:
		return nil''')
ok('C22',SC,'''	for _, v := range cmd.views {
		if err := v.canonicalize(); err != nil {
			cmd.err <- err
			return
		}
	}
''','''	if err := canonicalizeAll(cmd.views); err != nil {
		cmd.err <- err
		return
	}
''') if 0 else None
ok('C22',[(SC,'''	for _, v := range cmd.views {
		if err := v.canonicalize(); err != nil {
			cmd.err <- err
			return
		}
	}
''','''	if err := canonicalizeAll(cmd.views); err != nil {
		cmd.err <- err
		return
	}
'''),(SC,'''// unregisterFromViewReq is''','''func canonicalizeAll(vs []*View) error {
	for i := range vs {
		if err := vs[i].canonicalize(); err != nil {
			return err
		}
	}
	return nil
}

// unregisterFromViewReq is''')],None,None)
ok('C22',SC,'''		vi, err := w.tryRegisterView(view)
		if err != nil {
			errstr = append(errstr, fmt.Sprintf("%s: %v", view.Name, err))
			continue
		}
		internal.SubscriptionReporter(view.Measure.Name())
		vi.subscribe()
''','''		vi, err := w.tryRegisterView(view)
		if err == nil {
			internal.SubscriptionReporter(view.Measure.Name())
			vi.subscribe()
		} else {
			errstr = append(errstr, fmt.Sprintf("%s: %v", view.Name, err))
		}
''')
ok('C22',SC,'''	if len(errstr) > 0 {
		cmd.err <- errors.New(strings.Join(errstr, "\\n"))
	} else {
		cmd.err <- nil
	}''','''	var err error
	if len(errstr) != 0 {
		err = errors.New(strings.Join(errstr, "\\n"))
	}
	cmd.err <- err''')
ok('C22',SW,'''	if x, ok := w.views[vi.view.Name]; ok {
		if !x.view.same(vi.view) {
			return nil, fmt''','''	if x := w.views[v.Name]; x != nil {
		if !vi.view.same(x.view) {
			return nil, fmt''')
ok('C22',SW,'''	delete(w.views, v.view.Name)
	delete(w.viewStartTimes, v)
	if measure := w.measures[v.view.Measure.Name()]; measure != nil {
		delete(measure.views, v)
	}''','''	if measure, ok := w.measures[v.view.Measure.Name()]; ok {
		delete(measure.views, v)
	}
	delete(w.viewStartTimes, v)
	delete(w.views, v.view.Name)''')
ok('C22',SC,'''		vi, ok := w.views[name]
		if !ok {
			continue
		}

		// Report pending data for this view before removing it.
		w.reportView(vi)

		vi.unsubscribe()
		if !vi.isSubscribed() {
			// this was the last subscription and view is not collecting anymore.
			// The collected data can be cleared.
			w.mu.Lock()
			vi.clearRows()
			w.mu.Unlock()
		}
		w.unregisterView(vi)
''','''		if vi := w.views[name]; vi != nil {
			w.reportView(vi)
			vi.unsubscribe()
			w.mu.Lock()
			vi.clearRows()
			w.mu.Unlock()
			w.unregisterView(vi)
		}
''')
ok('C22',SV,'''		if !(r >= ' ' && r <= '~') {''','''		if r < ' ' || r > '~' {''')
ok('C22',SV,'''	for _, b := range v.Aggregation.Buckets {
		if b < 0 {''','''	bounds := v.Aggregation.Buckets
	for i := 0; i < len(bounds); i++ {
		if b := bounds[i]; b < 0 {''')
ok('C22',SV,'''	for i := range v.TagKeys {
		if v.TagKeys[i].Name() != other.TagKeys[i].Name() {
			return false
		}
	}''','''	for i, k := range other.TagKeys {
		if k != v.TagKeys[i] {
			return false
		}
	}''')
ok('C22',SV,'''	if v == other {
		return true
	}''','''	if v == other || v.Aggregation == other.Aggregation && v.same2(other) {
		return true
	}''') if 0 else None

# ---------------- metric ----------------
MC='metric/common.go'; MG='metric/gauge.go'; MU='metric/cumulative.go'; MR='metric/registry.go'
ENC='''		n := binary.PutUvarint(size[:], uint64(len(v.Value))+1)
		b = append(b, size[:n]...)
		b = append(b, v.Value...)
'''
bad('C24',MC,ENC,'''		_ = size
		b = append(b, byte(len(v.Value)+1))
		b = append(b, v.Value...)
''')
bad('C24',MC,ENC,'''		n := binary.PutUvarint(size[:], uint64(len(v.Value)))
		b = append(b, size[:n]...)
		b = append(b, v.Value...)
''')
bad('C24',MC,ENC,'''		_ = size
		b = append(b, v.Value...)
		b = append(b, ',')
''')
bad('C24',MC,ENC,'''		n := binary.PutUvarint(size[:], uint64(uint16(len(v.Value)))+1)
		b = append(b, size[:n]...)
		b = append(b, v.Value...)
''')
bad('C24',MC,'''			b = append(b, 0)
			continue
''','''			continue
''')
bad('C24',MC,'''		if !v.Present {
			b = append(b, 0)''','''		if v.Value == "" {
			b = append(b, 0)''')
bad('C24',MC,'''	all = append(all, bm.constLabelValues...)
	return append(all, labelVals...)''','''	all = append(all, labelVals...)
	return append(all, bm.constLabelValues...)''')
bad('C24',MC,'''	all := make([]metricdata.LabelValue, 0, len(bm.constLabelValues)+len(labelVals))
	all = append(all, bm.constLabelValues...)
	return append(all, labelVals...)''','''	return append(bm.constLabelValues, labelVals...)''')
bad('C24',MC,'''	if len(labelVals) != len(bm.keys) {
		return nil, errKeyValueMismatch''','''	if len(labelVals) > len(bm.keys) {
		return nil, errKeyValueMismatch''')
bad('C24',MC,'''	if len(labelVals) != len(bm.keys) {
		return errKeyValueMismatch
	}
''','')
bad('C24',MC,'''	entry, _ := bm.vals.LoadOrStore(mapKey, newEntry())
	return entry, nil''','''	entry := newEntry()
	bm.vals.Store(mapKey, entry)
	return entry, nil''')
bad('C24',MC,'''	entry, _ := bm.vals.LoadOrStore(mapKey, newEntry())
	return entry, nil''','''	entry := newEntry()
	bm.vals.LoadOrStore(mapKey, entry)
	return entry, nil''')
bad('C24',MC,'''	bm.vals.Store(mapKey, newEntry())
''','''	bm.vals.Delete(mapKey)
	bm.vals.Store(mapKey, newEntry())
''')
bad('C24',MC,'''	bm.vals.Store(mapKey, newEntry())
''','''	bm.vals.LoadOrStore(mapKey, newEntry())
''') if 0 else None
bad('C24',MC,'''		vals = append(vals, metricdata.NewLabelValue(string(b[:size-1])))
		b = b[size-1:]''','''		vals = append(vals, metricdata.NewLabelValue(string(b[:size-1])))
		b = b[size:]''')
bad('C24',MC,'''		if size == 0 {
			vals = append(vals, metricdata.LabelValue{})''','''		if size <= 1 {
			vals = append(vals, metricdata.LabelValue{})''')
bad('C24',MR,'''		if existing.bmType != bm.bmType {
			return nil, errMetricExistsWithDiffType
		}''','''		if bmTypeToMetricType(existing) != bmTypeToMetricType(bm) {
			return nil, errMetricExistsWithDiffType
		}''')
bad('C24',MR,'''		if existing.bmType != bm.bmType {''','''		if existing.bmType > bm.bmType {''')
bad('C24',MR,'''	for _, k := range constLabelKeys {
		constLabelValues = append(constLabelValues, o.constLabels[k])
	}
''','''	for _, v := range o.constLabels {
		constLabelValues = append(constLabelValues, v)
	}
''')
bad('C24',MR,'''	var constLabelKeys []metricdata.LabelKey
	for k := range o.constLabels {
		constLabelKeys = append(constLabelKeys, k)
	}
	sort.Slice(constLabelKeys, func(i, j int) bool {
		return constLabelKeys[i].Key < constLabelKeys[j].Key
	})

	var constLabelValues []metricdata.LabelValue
	for _, k := range constLabelKeys {
		constLabelValues = append(constLabelValues, o.constLabels[k])
	}
''','''	var constLabelKeys []metricdata.LabelKey
	for k := range o.constLabels {
		constLabelKeys = append(constLabelKeys, k)
	}
	var constLabelValues []metricdata.LabelValue
	for _, k := range constLabelKeys {
		constLabelValues = append(constLabelValues, o.constLabels[k])
	}
	sort.Slice(constLabelKeys, func(i, j int) bool {
		return constLabelKeys[i].Key < constLabelKeys[j].Key
	})
''')
bad('C24',MR,'''	bm.keys = append(constLabelKeys, o.labelkeys...)''','''	bm.keys = append(append([]metricdata.LabelKey{}, o.labelkeys...), constLabelKeys...)''')
bad('C24',MG,'''	return g.bm.upsertEntry(labelVals, func() baseEntry {
		return &int64DerivedGaugeEntry{fn}
	})''','''	_, err := g.bm.entryForValues(labelVals, func() baseEntry {
		return &int64DerivedGaugeEntry{fn}
	})
	return err''') if 0 else None
ok('C24',MC,'''	if entry, ok := bm.vals.Load(mapKey); ok {
		return entry, nil
	}
''','')
ok('C24',MC,'''	all := make([]metricdata.LabelValue, 0, len(bm.constLabelValues)+len(labelVals))
	all = append(all, bm.constLabelValues...)
	return append(all, labelVals...)''','''	n := len(bm.constLabelValues)
	return append(bm.constLabelValues[:n:n], labelVals...)''')
ok('C24',MC,'''	for _, v := range labelVals {
		if !v.Present {
			b = append(b, 0)
			continue
		}
		n := binary.PutUvarint(size[:], uint64(len(v.Value))+1)
		b = append(b, size[:n]...)
		b = append(b, v.Value...)
	}
''','''	for i := range labelVals {
		v := labelVals[i]
		if v.Present {
			n := binary.PutUvarint(size[:], uint64(1+len(v.Value)))
			b = append(append(b, size[:n]...), v.Value...)
		} else {
			b = append(b, 0)
		}
	}
''')
ok('C24',MC,'''	b := []byte(s)
	for range bm.keys {
		size, n := binary.Uvarint(b)
		b = b[n:]
		if size == 0 {
			vals = append(vals, metricdata.LabelValue{})
			continue
		}
		vals = append(vals, metricdata.NewLabelValue(string(b[:size-1])))
		b = b[size-1:]
	}
	return vals''','''	b := []byte(s)
	pos := 0
	for range bm.keys {
		var v metricdata.LabelValue
		size, n := binary.Uvarint(b[pos:])
		pos += n
		if size > 0 {
			end := pos + int(size) - 1
			v = metricdata.NewLabelValue(string(b[pos:end]))
			pos = end
		}
		vals = append(vals, v)
	}
	return vals''')
ok('C24',MR,'''	val, ok := r.baseMetrics.Load(name)
	if ok {
		existing := val.(*baseMetric)
		if existing.bmType != bm.bmType {
			return nil, errMetricExistsWithDiffType
		}
	}
''','''	if val, ok := r.baseMetrics.Load(name); ok && val.(*baseMetric).bmType != bm.bmType {
		return nil, errMetricExistsWithDiffType
	}
''')
ok('C24',MR,'''	_, err := r.initBaseMetric(&f.bm, name, mos...)
	if err != nil {
		return nil, err
	}
	return f, nil
}

// AddInt64Gauge''','''	if _, err := r.initBaseMetric(&f.bm, name, mos...); err != nil {
		return nil, err
	}
	return f, nil
}

// AddInt64Gauge''')
# C25
bad('C25',MU,'	if !(val > 0) {','	if val <= 0 {')
bad('C25',MU,'	if !(val > 0) {','	if val != val {')
bad('C25',MU,'''	if val <= 0 {
		return
	}
''','')
bad('C25',MU,'''	atomic.AddInt64(&e.val, val)
''','''	atomic.StoreInt64(&e.val, atomic.LoadInt64(&e.val)+val)
''')
bad('C25',MU,'''	atomic.AddInt64(&e.val, val)
''','''	e.val += val
''')
bad('C25',MU,'''		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
''','''		atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
		swapped = true
''')
bad('C25',MU,'''	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped =''','''	oldVal := atomic.LoadUint64(&e.val)
	for !swapped {
		newVal := math.Float64bits(math.Float64frombits(atomic.LoadUint64(&e.val)) + val)
		swapped =''')
bad('C25',MG,'''	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped =''','''	for i := 0; i < 100 && !swapped; i++ {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped =''')
bad('C25',MG,'''	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
	}''','''	atomic.StoreUint64(&e.val, math.Float64bits(math.Float64frombits(atomic.LoadUint64(&e.val))+val))
	_ = swapped''')
bad('C25',MG,'''	atomic.StoreInt64(&e.val, val)
''','''	if val >= 0 {
		atomic.StoreInt64(&e.val, val)
	}
''')
bad('C25',MG,'''	v := atomic.LoadInt64(&e.val)
	if v < 0 {
		v = 0.0
	}
''','''	v := atomic.LoadInt64(&e.val)
''')
bad('C25',MG,'''	v := atomic.LoadInt64(&e.val)
	if v < 0 {
		v = 0.0
	}
''','''	v := atomic.LoadInt64(&e.val)
	if atomic.LoadInt64(&e.val) < 0 {
		v = 0.0
	}
''')
bad('C25',MG,'''	v := atomic.LoadInt64(&e.val)
	if v < 0 {''','''	v := e.val
	if v < 0 {''')
bad('C25',MG,'return metricdata.NewInt64Point(t, e.fn())','''v := e.fn()
	if v < 0 {
		v = 0
	}
	return metricdata.NewInt64Point(t, v)''')
bad('C25',MG,'return metricdata.NewInt64Point(t, e.fn())','''e.fn()
	return metricdata.NewInt64Point(t, e.fn())''')
bad('C25',MU,'''	if val <= 0 {
		return
	}
	atomic''','''	if val <= 1 {
		return
	}
	atomic''')
ok('C25',MU,'''	var swapped bool
	if !(val > 0) {
		return
	}
	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
	}''','''	if val > 0 {
		for {
			oldVal := atomic.LoadUint64(&e.val)
			newVal := math.Float64bits(val + math.Float64frombits(oldVal))
			if atomic.CompareAndSwapUint64(&e.val, oldVal, newVal) {
				return
			}
		}
	}''')
ok('C25',MU,'''	var swapped bool
	if !(val > 0) {
		return
	}
	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
	}''','''	if !(val > 0) {
		return
	}
	addFloat64(&e.val, val)
}

func addFloat64(p *uint64, val float64) {
	for {
		old := atomic.LoadUint64(p)
		if atomic.CompareAndSwapUint64(p, old, math.Float64bits(math.Float64frombits(old)+val)) {
			break
		}
	}''')
ok('C25',MU,'''	if val <= 0 {
		return
	}
	atomic.AddInt64(&e.val, val)''','''	if val > 0 {
		atomic.AddInt64(&e.val, val)
	}''')
ok('C25',MG,'''	v := atomic.LoadInt64(&e.val)
	if v < 0 {
		v = 0.0
	}
	return metricdata.NewInt64Point(t, v)''','''	if v := atomic.LoadInt64(&e.val); v > 0 {
		return metricdata.NewInt64Point(t, v)
	}
	return metricdata.NewInt64Point(t, 0)''')
ok('C25',MG,'''	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped =''','''	for val != 0 && !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped =''') if 0 else None
# C26
bad('C26',MR,'''			bmType: derivedCumulativeFloat64,''','''			bmType: cumulativeFloat64,''')
bad('C26',MR,'''	case derivedGaugeInt64:
		return metricdata.TypeGaugeInt64''','''	case derivedGaugeInt64:
		return metricdata.TypeGaugeFloat64''')
bad('C26',MR,'''	case derivedCumulativeInt64:
		return metricdata.TypeCumulativeInt64
''','')
bad('C26',MR,'''		Unit:        o.unit,
''','')
bad('C26',MR,'''		LabelKeys:   bm.keys,
''','''		LabelKeys:   o.labelkeys,
''')
bad('C26',MC,'cumulativeFloat64, derivedCumulativeInt64, derivedCumulativeFloat64:','cumulativeFloat64, derivedCumulativeInt64:')
bad('C26',MR,'''		ms = append(ms, bm.read())
		return true''','''		if m := bm.read(); len(m.TimeSeries) > 0 {
			ms = append(ms, m)
		}
		return true''')
bad('C26',MR,'''		ms = append(ms, bm.read())
		return true''','''		ms = append(ms, bm.read())
		return len(ms) < 1000''')
bad('C26',MC,'''				entry.read(now),
''','''				entry.read(now.Truncate(time.Second)),
''')
bad('C26',MU,'return metricdata.NewFloat64Point(t, e.fn())','return metricdata.NewInt64Point(t, int64(e.fn()))')
bad('C26',MU,'return metricdata.NewFloat64Point(t, e.fn())','return metricdata.NewFloat64Point(time.Now(), e.fn())')
bad('C26','metric/metricdata/point.go','''func NewInt64Point(t time.Time, val int64) Point {
	return Point{
		Value: val,''','''func NewInt64Point(t time.Time, val int64) Point {
	return Point{
		Value: float64(val),''')
bad('C26',MR,'''		mo.unit = unit''','''		mo.desc = string(unit)''')
bad('C26',MR,'''	bm.start = time.Now()
''','''	bm.start = time.Time{}
''')
bad('C26',MC,'''			StartTime:   *startTime,''','''			StartTime:   now,''')
ok('C26',MC,'''	bm.vals.Range(func(k, v interface{}) bool {
		entry := v.(baseEntry)
		key := k.(string)
		labelVals := bm.decodeLabelVals(key)
		m.TimeSeries = append(m.TimeSeries, &metricdata.TimeSeries{
			StartTime:   *startTime,
			LabelValues: labelVals,
			Points: []metricdata.Point{
				entry.read(now),
			},
		})
		return true
	})''','''	bm.vals.Range(func(k, v interface{}) bool {
		ts := &metricdata.TimeSeries{StartTime: *startTime}
		ts.LabelValues = bm.decodeLabelVals(k.(string))
		ts.Points = []metricdata.Point{v.(baseEntry).read(now)}
		m.TimeSeries = append(m.TimeSeries, ts)
		return true
	})''')
ok('C26',MC,'''	now := time.Now()
	startTime := bm.startTime()
	if startTime == nil {
		startTime = &now
	}
''','''	now := time.Now()
	start := now
	if s := bm.startTime(); s != nil {
		start = *s
	}
	startTime := &start
''')
ok('C26',MR,'''		bm := v.(*baseMetric)
		ms = append(ms, bm.read())
		return true''','''		ms = append(ms, v.(*baseMetric).read())
		return true''')
ok('C26',MR,'''	case derivedGaugeFloat64:
		return metricdata.TypeGaugeFloat64
	case derivedGaugeInt64:
		return metricdata.TypeGaugeInt64
	case gaugeFloat64:
		return metricdata.TypeGaugeFloat64
	case gaugeInt64:
		return metricdata.TypeGaugeInt64
''','''	case derivedGaugeFloat64, gaugeFloat64:
		return metricdata.TypeGaugeFloat64
	case derivedGaugeInt64, gaugeInt64:
		return metricdata.TypeGaugeInt64
''')

# ---- C27 / C28
MX = 'metric/metricexport/reader.go'
MP = 'metric/metricproducer/manager.go'
bad('C27', MX, '''	if ir.quit != nil {
		return errAlreadyStarted
	}
''', '')
bad('C27', MX, '''	<-ir.done
	close(ir.quit)''', '''	close(ir.quit)''')
bad('C27', MX, '''	close(ir.done)
	ir.quit = nil
''', '''	close(ir.done)
''')
bad('C27', MX, '''	if ir == nil {
		return
	}
	ir.mu.Lock()
	defer ir.mu.Unlock()
	if ir.quit == nil {
		return
	}
	ir.quit <- true
	<-ir.done''', '''	if ir == nil {
		return
	}
	ir.mu.RLock()
	defer ir.mu.RUnlock()
	if ir.quit == nil {
		return
	}
	ir.quit <- true
	<-ir.done''')
bad('C27', MX, '''	if ir.quit != nil {
		return
	}

	ir.reader''', '''	ir.reader''')
bad('C27', MX, '''			ir.timer.Stop()
			ir.done <- true
			return''', '''			ir.done <- true
			return''')
bad('C27', MX, '''			ir.done <- true
			return''', '''			ir.done <- true
			ir.reader.ReadAndExport(ir.exporter)
			return''')
bad('C27', MX, '''	ir.timer = time.NewTicker(reportingInterval)
	ir.quit = make(chan bool)
	ir.done = make(chan bool)

	go ir.startInternal()''', '''	ir.timer = time.NewTicker(reportingInterval)
	ir.quit = make(chan bool)

	go ir.startInternal()
	ir.done = make(chan bool)''')
bad('C27', MX, '''	if ir.quit != nil {
		return errAlreadyStarted
	}
	ir.timer = time.NewTicker(reportingInterval)
''', '''	ir.timer = time.NewTicker(reportingInterval)
	if ir.quit != nil {
		return errAlreadyStarted
	}
''')
bad('C27', MX, 'if ir.ReportingInterval < minimumReportingDuration {', 'if ir.ReportingInterval <= minimumReportingDuration {')
bad('C27', MX, '''	if ir.quit == nil {
		return
	}
	ir.quit <- true''', '''	if ir.timer == nil {
		return
	}
	ir.quit <- true''')
bad('C27', MX, '''		case <-ir.timer.C:
			ir.reader.ReadAndExport(ir.exporter)''', '''		case <-ir.timer.C:
			go ir.reader.ReadAndExport(ir.exporter)''')
ok('C27', MX, '''	ir.quit <- true
	<-ir.done
	close(ir.quit)
	close(ir.done)
	ir.quit = nil''', '''	close(ir.quit)
	<-ir.done
	ir.quit, ir.done = nil, nil''')
ok('C27', MX, '''	go ir.startInternal()
	return nil
}

func (ir *IntervalReader) startInternal() {
	for {
		select {
		case <-ir.timer.C:
			ir.reader.ReadAndExport(ir.exporter)
		case <-ir.quit:
			ir.timer.Stop()
			ir.done <- true
			return
		}
	}
}''', '''	go ir.startInternal(ir.timer, ir.quit, ir.done)
	return nil
}

func (ir *IntervalReader) startInternal(t *time.Ticker, quit <-chan bool, done chan<- bool) {
	defer func() { done <- true }()
	defer t.Stop()
	for {
		select {
		case <-quit:
			return
		case <-t.C:
		}
		ir.reader.ReadAndExport(ir.exporter)
	}
}''')
ok('C27', MX, '''	if ir.quit != nil {
		return
	}

	ir.reader.ReadAndExport(ir.exporter)''', '''	if ir.running() {
		return
	}
	ir.read()
}

func (ir *IntervalReader) running() bool { return ir.quit != nil }

func (ir *IntervalReader) read() {
	ir.reader.ReadAndExport(ir.exporter)''')
ok('C27', MX, '''	var reportingInterval = defaultReportingDuration
	if ir.ReportingInterval != 0 {
		if ir.ReportingInterval < minimumReportingDuration {
			return errReportingIntervalTooLow
		}
		reportingInterval = ir.ReportingInterval
	}
''', '''	reportingInterval := ir.ReportingInterval
	switch {
	case reportingInterval == 0:
		reportingInterval = defaultReportingDuration
	case reportingInterval < minimumReportingDuration:
		return errReportingIntervalTooLow
	}
''')
bad('C28', MP, '''	producers := make([]Producer, len(pm.producers))
	i := 0
	for producer := range pm.producers {
		producers[i] = producer
		i++
	}
	return producers''', '''	producers := make([]Producer, 0, len(pm.producers))
	for producer := range pm.producers {
		producers = append(producers, producer)
		break
	}
	return producers''')
bad('C28', MP, '''	pm.mu.Lock()
	defer pm.mu.Unlock()
	delete(pm''', '''	pm.mu.RLock()
	defer pm.mu.RUnlock()
	delete(pm''')
bad('C28', MP, '''	if producer == nil {
		return
	}
	pm.mu.Lock()
	defer pm.mu.Unlock()
	pm.producers''', '''	pm.mu.Lock()
	defer pm.mu.Unlock()
	pm.producers''')
bad('C28', MP, '''	once.Do(func() {
		prodMgr = &Manager{}
		prodMgr.producers = make(map[Producer]struct{})
	})
''', '''	if prodMgr == nil {
		prodMgr = &Manager{}
		prodMgr.producers = make(map[Producer]struct{})
	}
''')
bad('C28', MX, '''		data = append(data, producer.Read()...)
''', '''		data = append(data, producer.Read()...)
		if len(data) > 1000 {
			break
		}
''')
bad('C28', MX, '''		data = append(data, producer.Read()...)
''', '''		data = producer.Read()
''')
bad('C28', MX, '''	exporter.ExportMetrics(ctx, data)''', '''	if len(data) > 0 {
		exporter.ExportMetrics(ctx, data)
	}''')
bad('C28', [(MP, '''	producers map[Producer]struct{}
''', '''	producers map[Producer]struct{}
	list []Producer
'''), (MP, '''	producers := make([]Producer, len(pm.producers))
	i := 0
	for producer := range pm.producers {
		producers[i] = producer
		i++
	}
	return producers''', '''	producers := pm.list[:0]
	for producer := range pm.producers {
		producers = append(producers, producer)
	}
	pm.list = producers
	return producers''')], None, None)
ok('C28', MP, '''	producers := make([]Producer, len(pm.producers))
	i := 0
	for producer := range pm.producers {
		producers[i] = producer
		i++
	}
	return producers''', '''	var all []Producer
	for p := range pm.producers {
		all = append(all, p)
	}
	return all''')
ok('C28', MP, '''	producers := make([]Producer, len(pm.producers))
	i := 0
	for producer := range pm.producers {
		producers[i] = producer
		i++
	}
	return producers''', '''	all := make([]Producer, 0, len(pm.producers))
	for p := range pm.producers {
		all = append(all, p)
	}
	return all''')
ok('C28', MP, '''	pm.mu.Lock()
	defer pm.mu.Unlock()
	delete(pm.producers, producer)''', '''	pm.mu.Lock()
	if _, ok := pm.producers[producer]; ok {
		delete(pm.producers, producer)
	}
	pm.mu.Unlock()''')
ok('C28', MP, '''	once.Do(func() {
		prodMgr = &Manager{}
		prodMgr.producers = make(map[Producer]struct{})
	})
''', '''	once.Do(func() {
		prodMgr = &Manager{producers: map[Producer]struct{}{}}
	})
''')
ok('C28', MX, '''	data := []*metricdata.Metric{}
	for _, producer := range producers {
		data = append(data, producer.Read()...)
	}
''', '''	var data []*metricdata.Metric
	for i := range producers {
		if ms := producers[i].Read(); len(ms) > 0 {
			data = append(data, ms...)
		}
	}
''')
# ---- ochttp
HS='plugin/ochttp/server.go'; HC='plugin/ochttp/client.go'; HT='plugin/ochttp/trace.go'; HCS='plugin/ochttp/client_stats.go'; HW='plugin/ochttp/wrapped_body.go'
# ---- C13
bad('C13',HT,'		header := make(http.Header)\n		for k, v := range req.Header {\n			header[k] = v\n		}\n		req.Header = header\n','')
bad('C13',HT,'		header := make(http.Header)\n		for k, v := range req.Header {\n			header[k] = v\n		}\n','		header := req.Header\n')
bad('C13',HT,'			header[k] = v\n','			if len(v) > 1 {\n				v = v[:1]\n			}\n			header[k] = v\n')
bad('C13',HT,'		req = req.WithContext(ctx)\n	}','		*req = *req.WithContext(ctx)\n	}')
bad('C13',HT,'		for k, v := range req.Header {\n			header[k] = v\n','		for k, v := range req.Header {\n			if k == "Connection" {\n				continue\n			}\n			header[k] = v\n')
bad('C13',HT,'		t.format.SpanContextToRequest(span.SpanContext(), req)\n','		if span.IsRecordingEvents() {\n			t.format.SpanContextToRequest(span.SpanContext(), req)\n		}\n')
bad('C13',HCS,'	req = req.WithContext(ctx)\n	track','	*req = *req.WithContext(ctx)\n	track')
ok('C13',HT,'		header := make(http.Header)\n		for k, v := range req.Header {\n			header[k] = v\n		}\n		req.Header = header\n','		req.Header = cloneHeader(req.Header)\n') if 0 else None
ok('C13',[(HT,'		header := make(http.Header)\n		for k, v := range req.Header {\n			header[k] = v\n		}\n		req.Header = header\n','		req.Header = copyHeader(req.Header)\n'),(HT,'func spanNameFromURL(','func copyHeader(h http.Header) http.Header {\n	c := make(http.Header, len(h))\n	for name := range h {\n		c[name] = h[name]\n	}\n	return c\n}\n\nfunc spanNameFromURL(')])
ok('C13',HT,'		header := make(http.Header)\n		for k, v := range req.Header {\n			header[k] = v\n		}\n		req.Header = header\n','		header := make(http.Header)\n		for k, vs := range req.Header {\n			header[k] = append([]string(nil), vs...)\n		}\n		req.Header = header\n')
ok('C13',HT,'		header := make(http.Header)\n		for k, v := range req.Header {\n			header[k] = v\n		}\n		req.Header = header\n','		if req.Header = req.Header.Clone(); req.Header == nil {\n			req.Header = make(http.Header)\n		}\n')
ok('C13',HT,'		header := make(http.Header)\n		for k, v := range req.Header {\n			header[k] = v\n		}\n		req.Header = header\n		t.format.SpanContextToRequest(span.SpanContext(), req)\n','		out := req.Clone(req.Context())\n		if out.Header == nil {\n			out.Header = make(http.Header)\n		}\n		t.format.SpanContextToRequest(span.SpanContext(), out)\n		req = out\n')
# ---- C29
bad('C29',HS,'	defer traceEnd()\n','	_ = traceEnd\n')
bad('C29',HS,'	defer statsEnd(&tags)\n','	_ = statsEnd\n')
bad('C29',HS,'	handler.ServeHTTP(w, r)\n','	handler.ServeHTTP(w, r)\n	statsEnd(&tags)\n') if 0 else None
bad('C29',[(HS,'	defer statsEnd(&tags)\n',''),(HS,'	handler.ServeHTTP(w, r)\n','	handler.ServeHTTP(w, r)\n	statsEnd(&tags)\n')])
bad('C29',[(HS,'	defer traceEnd()\n',''),(HS,'	handler.ServeHTTP(w, r)\n','	handler.ServeHTTP(w, r)\n	traceEnd()\n')])
bad('C29',HS,'	t.endOnce.Do(func() {','	func(f func()) { f() }(func() {') if 0 else None
bad('C29',HS,'	stats.Record(ctx, ServerRequestCount.M(1))\n','	if r.Method != "HEAD" {\n		stats.Record(ctx, ServerRequestCount.M(1))\n	}\n')
bad('C29',HS,'	stats.Record(ctx, ServerRequestCount.M(1))\n','	stats.Record(ctx, ServerRequestCount.M(1))\n	if track.reqSize > 0 {\n		stats.Record(ctx, ServerRequestBytes.M(track.reqSize))\n	}\n')
bad('C29',HS,'	return r.WithContext(ctx), span.End\n','	if span.IsRecordingEvents() {\n		return r.WithContext(ctx), span.End\n	}\n	return r.WithContext(ctx), func() {}\n') if 0 else None
bad('C29',HS,'	n, err := t.writer.Write(data)\n	t.bodySent(int64(n))\n','	n, err := t.writer.Write(data)\n	if err == nil {\n		t.bodySent(int64(n))\n	}\n')
bad('C29',HS,'	t.respSize += n\n','	t.respSize = n\n')
bad('C29',HS,'	n, err := t.writer.Write(data)\n	t.bodySent(int64(n))\n','	n, err := t.writer.Write(data)\n	t.bodySent(int64(len(data)))\n')
bad('C29',HS,'	if t.statusCode != 0 || informational {','	if informational {')
bad('C29',HS,'	if t.statusCode != 0 || informational {','	if _ = informational; t.statusCode != 0 {')
bad('C29',HS,'	t.headerSent(http.StatusOK)\n	n, err := t.writer.Write(data)','	n, err := t.writer.Write(data)')
bad('C29',HS,'	rf.t.bodySent(n)\n','')
bad('C29',HS,'			ServerResponseBytes.M(t.respSize),\n','')
bad('C29',HS,'		allTags[0] = tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))\n		copy(allTags[1:], tags.t)\n','		allTags[0] = tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))\n		copy(allTags[0:], tags.t)\n')
bad('C29',HS,'isHealthEndpoint(r.URL.Path) {','isHealthEndpoint(r.RequestURI) {')
bad('C29',HS,'h.IsHealthEndpoint != nil && h.IsHealthEndpoint(r) || isHealthEndpoint(r.URL.Path)','h.IsHealthEndpoint != nil && h.IsHealthEndpoint(r)')
bad('C29',HS,'h.IsHealthEndpoint != nil && h.IsHealthEndpoint(r) || isHealthEndpoint(r.URL.Path)','h.IsHealthEndpoint != nil && h.IsHealthEndpoint(r) && isHealthEndpoint(r.URL.Path)')
bad('C29',HS,'	if i3 {\n		fl = trackingFlusher{t, fl}\n	}\n','')
bad('C29',HS,'	if i4 {\n		rf = trackingReaderFrom{t, rf}\n	}\n','')
bad('C29',HS,'	t.statusCode = statusCode\n','	t.statusCode = statusCode / 100 * 100\n')
ok('C29',HS,'	r, traceEnd := h.startTrace(w, r)\n	defer traceEnd()\n	w, statsEnd := h.startStats(w, r)\n	defer statsEnd(&tags)\n','	r, traceEnd := h.startTrace(w, r)\n	w, statsEnd := h.startStats(w, r)\n	defer func() {\n		statsEnd(&tags)\n		traceEnd()\n	}()\n')
ok('C29',HS,'		allTags := make([]tag.Mutator, len(tags.t)+1)\n		allTags[0] = tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))\n		copy(allTags[1:], tags.t)\n','		allTags := append([]tag.Mutator{tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))}, tags.t...)\n')
ok('C29',HS,'	handler := h.Handler\n	if handler == nil {\n		handler = http.DefaultServeMux\n	}\n	r = r.WithContext(context.WithValue(r.Context(), addedTagsKey{}, &tags))\n	handler.ServeHTTP(w, r)\n}\n','	r = r.WithContext(context.WithValue(r.Context(), addedTagsKey{}, &tags))\n	h.inner().ServeHTTP(w, r)\n}\n\nfunc (h *Handler) inner() http.Handler {\n	if h.Handler != nil {\n		return h.Handler\n	}\n	return http.DefaultServeMux\n}\n')
ok('C29',HS,'	if t.statusCode != 0 || informational {\n		return\n	}\n	t.statusCode = statusCode\n	t.statusLine = http.StatusText(t.statusCode)\n','	if t.statusCode == 0 && !informational {\n		t.statusCode, t.statusLine = statusCode, http.StatusText(statusCode)\n	}\n')
ok('C29',HS,'		m := []stats.Measurement{\n			ServerLatency.M(float64(time.Since(t.start)) / float64(time.Millisecond)),\n			ServerResponseBytes.M(t.respSize),\n		}\n','		elapsed := time.Since(t.start)\n		m := make([]stats.Measurement, 0, 3)\n		m = append(m, ServerResponseBytes.M(t.respSize), ServerLatency.M(float64(elapsed)/float64(time.Millisecond)))\n')
ok('C29',HS,'	if h.IsHealthEndpoint != nil && h.IsHealthEndpoint(r) || isHealthEndpoint(r.URL.Path) {\n		return r, func() {}\n	}\n','	if h.isHealth(r) {\n		return r, func() {}\n	}\n') if 0 else None
ok('C29',[(HS,'	if h.IsHealthEndpoint != nil && h.IsHealthEndpoint(r) || isHealthEndpoint(r.URL.Path) {\n','	if h.isHealth(r) {\n'),(HS,'func (h *Handler) extractSpan','func (h *Handler) isHealth(r *http.Request) bool {\n	if isHealthEndpoint(r.URL.Path) {\n		return true\n	}\n	if f := h.IsHealthEndpoint; f != nil {\n		return f(r)\n	}\n	return false\n}\n\nfunc (h *Handler) extractSpan')])
# ---- C30
bad('C30',HT,'		span.SetStatus(trace.Status{Code: trace.StatusCodeUnknown, Message: err.Error()})\n		span.End()\n','		span.SetStatus(trace.Status{Code: trace.StatusCodeUnknown, Message: err.Error()})\n')
bad('C30',HT,'	case io.EOF:\n		bt.span.End()\n','	case io.EOF:\n')
bad('C30',HT,'	bt.span.End()\n	return bt.rc.Close()','	return bt.rc.Close()')
bad('C30',HT,'	bt.span.End()\n	return bt.rc.Close()','	err := bt.rc.Close()\n	if err == nil {\n		bt.span.End()\n	}\n	return err')
bad('C30',HT,'	if resp.Body == nil {\n		span.End()\n		return resp, err\n	}\n','')
bad('C30',HT,'	return bt.rc.Close()','	bt.rc.Close()\n	return nil')
bad('C30',HT,'		bt.span.End()\n	default:','		bt.span.End()\n		return n, nil\n	default:')
bad('C30',HT,'	n, err := bt.rc.Read(b)\n\n	switch err {\n	case nil:\n		return n, nil\n	case io.EOF:','	n, err := bt.rc.Read(b)\n\n	switch {\n	case err == nil:\n		return n, nil\n	case err == io.EOF && n == 0:')
bad('C30',HCS,'	t.endOnce.Do(func() {','	func(f func()) { f() }(func() {')
bad('C30',HCS,'	t.end()\n	return t.body.Close()','	return t.body.Close()')
bad('C30',HCS,'	case io.EOF:\n		t.end()\n','')
bad('C30',HCS,'		if resp.Body == nil {\n			track.end()\n		} else {','		if resp.Body != nil {')
bad('C30',HCS,'		track.statusCode = http.StatusInternalServerError\n		track.end()','		track.statusCode = http.StatusInternalServerError')
bad('C30',HCS,'		track.statusCode = http.StatusInternalServerError\n','')
bad('C30',HCS,'			ClientRoundtripLatency.M(latencyMs),\n','')
bad('C30',HCS,'	atomic.AddInt64(&t.respSize, int64(n))\n','	if err == nil {\n		atomic.AddInt64(&t.respSize, int64(n))\n	}\n')
bad('C30',HCS,'	atomic.AddInt64(&t.respSize, int64(n))\n','	t.respSize += int64(n)\n')
bad('C30',HCS,'	atomic.AddInt64(&t.respSize, int64(n))\n','	atomic.AddInt64(&t.respSize, int64(len(b)))\n')
bad('C30',HCS,'	stats.Record(ctx, ClientRequestCount.M(1))\n','	if req.Body != nil {\n		stats.Record(ctx, ClientRequestCount.M(1))\n	}\n')
bad('C30',HCS,'			track.body = resp.Body\n			resp.Body = wrappedBody(track, resp.Body)','			track.body = resp.Body\n			if resp.ContentLength != 0 {\n				resp.Body = wrappedBody(track, resp.Body)\n			}')
bad('C30',HT,'	resp, err := t.base.RoundTrip(req)\n	if err != nil {','	resp, err := t.base.RoundTrip(req)\n	if err == http.ErrUseLastResponse {\n		return resp, err\n	}\n	if err != nil {')
bad('C30',HT,'	resp, err := t.base.RoundTrip(req)\n','	resp, err := t.base.RoundTrip(req)\n	if err != nil && req.Body == nil {\n		resp, err = t.base.RoundTrip(req)\n	}\n')
ok('C30',HT,'	switch err {\n	case nil:\n		return n, nil\n	case io.EOF:\n		bt.span.End()\n	default:\n		// For all other errors, set the span status\n		bt.span.SetStatus(trace.Status{\n			// Code 2 is the error code for Internal server error.\n			Code:    2,\n			Message: err.Error(),\n		})\n	}\n	return n, err\n','	if err == io.EOF {\n		bt.span.End()\n	} else if err != nil {\n		bt.readFailed(err)\n	}\n	return n, err\n}\n\nfunc (bt *bodyTracker) readFailed(err error) {\n	bt.span.SetStatus(trace.Status{Code: 2, Message: err.Error()})\n')
ok('C30',HCS,'	switch err {\n	case nil:\n		return n, nil\n	case io.EOF:\n		t.end()\n	}\n	return n, err','	if err == io.EOF {\n		t.end()\n	}\n	return n, err')
ok('C30',HCS,'	t.end()\n	return t.body.Close()','	defer t.end()\n	return t.body.Close()')
ok('C30',HCS,'		if resp.Body == nil {\n			track.end()\n		} else {\n			track.body = resp.Body\n			resp.Body = wrappedBody(track, resp.Body)\n		}\n','		body := resp.Body\n		if body == nil {\n			track.end()\n			return resp, nil\n		}\n		track.body = body\n		resp.Body = wrappedBody(track, body)\n')
ok('C30',HCS,'	if err != nil {\n		track.statusCode = http.StatusInternalServerError\n		track.end()\n	} else {\n','	if err != nil {\n		track.statusCode = http.StatusInternalServerError\n		track.end()\n		return resp, err\n	}\n	{\n')
# ---- C31
bad('C31',HS,'	case !i0 && !i1 && i2 && i3 && !i4:\n		return struct {\n			http.ResponseWriter\n			http.Pusher\n			http.Flusher\n		}{t, pu, fl}','	case !i0 && !i1 && i2 && i3 && !i4:\n		return struct {\n			http.ResponseWriter\n			http.Pusher\n		}{t, pu}')
bad('C31',HS,'	case i0 && !i1 && !i2 && i3 && i4:','	case i0 && !i1 && i3 && i4:')
bad('C31',HS,'		}{t, hj, cn, rf}','		}{t, hj, cn, nil}')
bad('C31',HS,'		pu, i2 = t.writer.(http.Pusher)','		pu, i2 = http.Pusher(nil), false')
bad('C31',HS,'		}{t, hj, fl}','		}{t, hj, nil}')
bad('C31',HS,'	f.Flusher.Flush()\n','')
bad('C31',HS,'	n, err := rf.ReaderFrom.ReadFrom(r)\n','	n, err := io.Copy(rf.t, r)\n')
bad('C31',HW,'	case i0:\n		return struct {\n			io.ReadCloser\n			io.Writer\n		}{wrapper, wr}','	case i0:\n		_ = wr\n		return struct {\n			io.ReadCloser\n		}{wrapper}')
bad('C31',HW,'		wr, i0 = body.(io.Writer)','		wr, i0 = wrapper.(io.Writer)')
bad('C31',HCS,'wrappedBody(track, resp.Body)','wrappedBody(track, track)')
ok('C31',HW,'	switch {\n	case !i0:\n		return struct {\n			io.ReadCloser\n		}{wrapper}\n\n	case i0:\n		return struct {\n			io.ReadCloser\n			io.Writer\n		}{wrapper, wr}\n	default:\n		return struct {\n			io.ReadCloser\n		}{wrapper}\n	}\n','	if !i0 {\n		return struct{ io.ReadCloser }{wrapper}\n	}\n	type readWriteCloser struct {\n		io.ReadCloser\n		io.Writer\n	}\n	return &readWriteCloser{wrapper, wr}\n')
ok('C31',HW,'	switch {\n	case !i0:\n		return struct {\n			io.ReadCloser\n		}{wrapper}\n\n','	if !i0 {\n		return wrapper\n	}\n	switch {\n')
ok('C31',HS,'	switch {\n	case !i0 && !i1 && !i2 && !i3 && !i4:\n		return struct {\n			http.ResponseWriter\n		}{t}\n','	if !i0 && !i1 && !i2 && !i3 && !i4 {\n		return t\n	}\n	switch {\n')
# ---- C32
GS,GT,GSS,GCS='plugin/ocgrpc/stats_common.go','plugin/ocgrpc/trace_common.go','plugin/ocgrpc/server_stats_handler.go','plugin/ocgrpc/client_stats_handler.go'
bad('C32',GS,'	atomic.AddInt64(&d.sentBytes, int64(s.Length))\n','	atomic.AddInt64(&d.sentBytes, int64(s.WireLength))\n')
bad('C32',GS,'	atomic.AddInt64(&d.recvBytes, int64(s.Length))\n','	atomic.AddInt64(&d.sentBytes, int64(s.Length))\n')
bad('C32',GS,'	atomic.AddInt64(&d.recvCount, 1)\n','	if s.Length > 0 {\n		atomic.AddInt64(&d.recvCount, 1)\n	}\n')
bad('C32',GS,'	atomic.AddInt64(&d.recvCount, 1)\n','	d.recvCount++\n')
bad('C32',GS,'				ClientSentBytesPerRPC.M(atomic.LoadInt64(&d.sentBytes)),','				ClientSentBytesPerRPC.M(atomic.LoadInt64(&d.recvBytes)),')
bad('C32',GS,'				ClientReceivedMessagesPerRPC.M(atomic.LoadInt64(&d.recvCount)),\n','')
bad('C32',GS,'				tag.Upsert(KeyServerStatus, st),\n','				tag.Upsert(KeyClientStatus, st),\n')
bad('C32',GS,'	case codes.DataLoss:\n		return "DATA_LOSS"\n','')if 0 else None
bad('C32',GS,'	case codes.DataLoss:\n		return "DATA_LOSS"\n','	case codes.DataLoss:\n		return "INTERNAL"\n')
bad('C32',GS,'	if s.Error != nil {\n','	if s.Error != nil && s.Client {\n')
bad('C32',GS,'float64(elapsedTime) / float64(time.Millisecond)','float64(elapsedTime) / float64(time.Microsecond)')
bad('C32',GT,'		span.End()\n	}\n}','		if rs.Error == nil {\n			span.End()\n		}\n	}\n}')
bad('C32',GT,'			if ok {\n				span.SetStatus(trace.Status{Code: int32(s.Code()), Message: s.Message()})\n			} else','			if ok && rs.Client {\n				span.SetStatus(trace.Status{Code: int32(s.Code()), Message: s.Message()})\n			} else')
bad('C32',GT,'		span.AddMessageSendEvent(0, int64(rs.Length), int64(rs.WireLength))','		span.AddMessageSendEvent(0, int64(rs.WireLength), int64(rs.Length))')
bad('C32',GT,'	return metadata.AppendToOutgoingContext(ctx, traceContextKey, string(traceContextBinary))','	if !span.IsRecordingEvents() {\n		return ctx\n	}\n	return metadata.AppendToOutgoingContext(ctx, traceContextKey, string(traceContextBinary))')
bad('C32',GT,'propagation.Binary(span.SpanContext())','propagation.Binary(trace.FromContext(nil).SpanContext())') if 0 else None
bad('C32',GT,'	name := spanName(rti)\n	ctx, span := trace.StartSpan(ctx, name,\n		trace.WithSampler(c.','	name := spanName(rti)\n	octx := ctx\n	ctx, span := trace.StartSpan(ctx, name,\n		trace.WithSampler(c.') if 0 else None
bad('C32',GSS,'	return context.WithValue(ctx, rpcDataKey, d)','	return context.WithValue(ctx, grpcInstrumentationKey("rpc-data"), d)')
bad('C32',GSS,'	propagated := h.extractPropagatedTags(ctx)\n	ctx = tag.NewContext(ctx, propagated)\n','	if propagated := h.extractPropagatedTags(ctx); tag.FromContext(ctx) != nil {\n		ctx = tag.NewContext(ctx, propagated)\n	}\n')
bad('C32',GCS,'		ctx = stats.SetTags(ctx, encoded)\n','		stats.SetTags(ctx, encoded)\n')
bad('C32',GCS,'		startTime: startTime,\n','		startTime: startTime.Truncate(time.Second),\n')
bad('C32',GCS,'	if ts != nil {','	if ts != nil && stats.OutgoingTags(ctx) == nil {')
bad('C32',GS,'	d, ok := ctx.Value(rpcDataKey).(*rpcData)\n	if !ok {\n		if grpclog.V(2) {\n			grpclog.Infoln("Failed to retrieve *rpcData from context.")\n		}\n		return\n	}\n\n	elapsedTime','	d, _ := ctx.Value(rpcDataKey).(*rpcData)\n\n	elapsedTime')
ok('C32',GS,'	atomic.AddInt64(&d.sentBytes, int64(s.Length))\n	atomic.AddInt64(&d.sentCount, 1)\n','	d.sent(s.Length)\n}\n\nfunc (d *rpcData) sent(n int) {\n	atomic.AddInt64(&d.sentCount, 1)\n	atomic.AddInt64(&d.sentBytes, int64(n))\n')
ok('C32',GS,'	var st string\n	if s.Error != nil {\n		// An error without a status counts as UNKNOWN.\n		s, _ := status.FromError(s.Error)\n		st = statusCodeToString(s)\n	} else {\n		st = "OK"\n	}\n','	st := "OK"\n	if err := s.Error; err != nil {\n		es, _ := status.FromError(err)\n		st = statusCodeToString(es)\n	}\n')
ok('C32',GS,'	if s.Client {\n		ocstats.RecordWithOptions(ctx,','	if client := s.IsClient(); client {\n		ocstats.RecordWithOptions(ctx,')
ok('C32',GS,'			ocstats.WithTags(\n				tag.Upsert(KeyServerStatus, st),\n			),\n','			ocstats.WithTags(tag.Upsert(KeyServerStatus, st)),\n')
ok('C32',GT,'	case *stats.InPayload:\n		span.AddMessageReceiveEvent(0 /* TODO: messageID */, int64(rs.Length), int64(rs.WireLength))\n	case *stats.OutPayload:\n		span.AddMessageSendEvent(0, int64(rs.Length), int64(rs.WireLength))\n','	case *stats.OutPayload:\n		span.AddMessageSendEvent(0, int64(rs.Length), int64(rs.WireLength))\n	case *stats.InPayload:\n		size, wire := int64(rs.Length), int64(rs.WireLength)\n		span.AddMessageReceiveEvent(0, size, wire)\n')
ok('C32',GCS,'	if ts != nil {\n		encoded := tag.Encode(ts)\n		ctx = stats.SetTags(ctx, encoded)\n	}\n\n	return context.WithValue(ctx, rpcDataKey, d)\n','	ctx = context.WithValue(ctx, rpcDataKey, d)\n	if ts == nil {\n		return ctx\n	}\n	return stats.SetTags(ctx, tag.Encode(ts))\n')
# ---- C34
bad('C34',GT,'haveParent && !s.IsPublicEndpoint','haveParent')
bad('C34',GT,'haveParent && !s.IsPublicEndpoint','haveParent && !s.IsPublicEndpoint && parent.IsSampled()')
bad('C34',GT,'	if haveParent {\n		span','	if parent.IsSampled() {\n		span')
bad('C34',GT,'traceContextBinary := []byte(traceContext[0])','traceContextBinary := []byte(traceContext[0])\n		if len(traceContext) > 1 {\n			traceContextBinary = nil\n		}')
bad('C34',GT,'SpanID: parent.SpanID, Type','SpanID: span.SpanContext().SpanID, Type')
bad('C34',HS,'if ok && !h.IsPublicEndpoint {','if ok && !h.IsPublicEndpoint || h.IsPublicEndpoint && ok && h.Propagation != nil {')
bad('C34',HS,'		if ok {\n			span.AddLink','		if ok && sc.IsSampled() {\n			span.AddLink')
bad('C34',HS,'	if h.Propagation == nil {\n		return defaultFormat.SpanContextFromRequest(r)\n	}\n	return h.Propagation','	if h.Propagation == nil || r.Header.Get("X-B3-TraceId") != "" {\n		return defaultFormat.SpanContextFromRequest(r)\n	}\n	return h.Propagation')
ok('C34',GT,'	if haveParent {\n		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeParent})\n	}\n	return ctx','	if !haveParent {\n		return ctx\n	}\n	link := trace.Link{Type: trace.LinkTypeParent}\n	link.TraceID, link.SpanID = parent.TraceID, parent.SpanID\n	span.AddLink(link)\n	return ctx')
ok('C34',GT,'	if len(traceContext) > 0 {','	if n := len(traceContext); n != 0 {')
ok('C34',GT,'			ctx, _ := trace.StartSpanWithRemoteParent(ctx, name, parent,\n				trace.WithSpanKind(trace.SpanKindServer),\n				trace.WithSampler(s.StartOptions.Sampler),\n			)\n			return ctx\n','			return s.join(ctx, name, parent)\n') if 0 else None
ok('C34',HS,'	if h.Propagation == nil {\n		return defaultFormat.SpanContextFromRequest(r)\n	}\n	return h.Propagation.SpanContextFromRequest(r)','	format := h.Propagation\n	if format == nil {\n		format = defaultFormat\n	}\n	return format.SpanContextFromRequest(r)')
# ---- C33
ZT,ZR='zpages/tracez.go','zpages/rpcz.go'
bad('C33',HT,'	case http.StatusConflict:\n		code = trace.StatusCodeAlreadyExists\n','')
bad('C33',HT,'httpStatusCode >= 400 {','httpStatusCode > 400 {')if 0 else None
bad('C33',HT,'httpStatusCode >= 400 {','httpStatusCode >= 300 {')
bad('C33',HT,'httpStatusCode < 200 ||','')
bad('C33',HT,'	trace.StatusCodeDataLoss:           `DATA_LOSS`,\n','')if 0 else None
bad('C33',HT,'	trace.StatusCodeAlreadyExists:      `ALREADY_EXISTS`,','	trace.StatusCodeAlreadyExists:      `NOT_FOUND`,')
bad('C33',HT,'	case http.StatusForbidden:\n		code = trace.StatusCodePermissionDenied\n	case http.StatusUnauthorized: // 401 is actually unauthenticated.\n		code = trace.StatusCodeUnauthenticated\n','	case http.StatusForbidden:\n		code = trace.StatusCodeUnauthenticated\n	case http.StatusUnauthorized: // 401 is actually unauthenticated.\n		code = trace.StatusCodePermissionDenied\n') if 0 else None
bad('C33',GS,'	case codes.Aborted:\n		return "ABORTED"\n','')
bad('C33',GS,'	case codes.OutOfRange:\n		return "OUT_OF_RANGE"\n	case codes.Unimplemented:\n		return "UNIMPLEMENTED"\n','	case codes.OutOfRange:\n		return "UNIMPLEMENTED"\n	case codes.Unimplemented:\n		return "OUT_OF_RANGE"\n')
bad('C33',GS,'		return "CODE_" + strconv.FormatInt(int64(c), 10)','		_ = strconv.Itoa\n		return "UNKNOWN"')
bad('C33',ZT,'int(code) >= len(canonicalCodes)','int(code) > len(canonicalCodes)')
bad('C33',ZT,'code < 0 || ','')
bad('C33',ZT,'		"FAILED_PRECONDITION",\n		"ABORTED",\n','		"ABORTED",\n		"FAILED_PRECONDITION",\n')
bad('C33',ZT,'		"DATA_LOSS",\n		"UNAUTHENTICATED",\n','		"DATA_LOSS",\n')
bad('C33','trace/status_codes.go','	StatusCodeAborted            = 10\n	StatusCodeOutOfRange         = 11\n','	StatusCodeAborted            = 11\n	StatusCodeOutOfRange         = 10\n')
ok('C33',HT,'	case http.StatusBadRequest:\n		code = trace.StatusCodeInvalidArgument\n	case http.StatusUnprocessableEntity:\n','	case http.StatusBadRequest, http.StatusUnprocessableEntity:\n')
ok('C33',[(HT,'	switch httpStatusCode {\n	case 499:','	if c, ok := fromHTTP[httpStatusCode]; ok {\n		code = c\n	}\n	switch httpStatusCode {\n	case 499:'),(HT,'	case http.StatusForbidden:\n		code = trace.StatusCodePermissionDenied\n',''),(HT,'var codeToStr =','var fromHTTP = map[int]int32{\n	http.StatusForbidden: trace.StatusCodePermissionDenied,\n	http.StatusOK: trace.StatusCodeOK,\n}\n\nvar codeToStr =')])
ok('C33',[(GS,'	switch c := s.Code(); c {\n	case codes.OK:\n		return "OK"\n	case codes.Canceled:\n		return "CANCELLED"\n','	c := s.Code()\n	if n, ok := names[c]; ok {\n		return n\n	}\n	switch c {\n'),(GS,'func getSpanCtxAtt','var names = map[codes.Code]string{\n	codes.OK: "OK",\n	codes.Canceled: "CANCELLED",\n}\n\nfunc getSpanCtxAtt')])
ok('C33',ZT,'	if code < 0 || int(code) >= len(canonicalCodes) {\n		return "error code " + strconv.FormatInt(int64(code), 10)\n	}\n	return canonicalCodes[code]\n','	if i := int(code); 0 <= i && i < len(canonicalCodes) {\n		return canonicalCodes[i]\n	}\n	return fmt.Sprintf("error code %d", code)\n')
ok('C33',HT,'	var code int32\n	if httpStatusCode < 200 || httpStatusCode >= 400 {\n		code = trace.StatusCodeUnknown\n	}\n','	code := int32(trace.StatusCodeOK)\n	success := httpStatusCode >= 200 && httpStatusCode <= 399\n	if !success {\n		code = trace.StatusCodeUnknown\n	}\n')
# ---- C36
RM='plugin/runmetrics/producer.go'
bad('C36',RM,'	m.stackInuse.Set(int64(m.memStats.StackInuse))\n	m.stackSys.Set(int64(m.memStats.StackSys))\n	m.stackMSpanInuse.Set(int64(m.memStats.MSpanInuse))\n	m.stackMSpanSys.Set(int64(m.memStats.MSpanSys))\n	m.stackMCacheInuse.Set(int64(m.memStats.MCacheInuse))\n	m.stackMCacheSys.Set(int64(m.memStats.MCacheSys))\n\n	m.gcSys.Set(int64(m.memStats.GCSys))\n	m.otherSys.Set(int64(m.memStats.OtherSys))\n\n	_','	m.stackInuse.Set(int64(m.memStats.StackInuse))\n	m.stackSys.Set(int64(m.memStats.StackSys))\n	m.stackMSpanInuse.Set(int64(m.memStats.MSpanSys))\n	m.stackMSpanSys.Set(int64(m.memStats.MSpanInuse))\n	m.stackMCacheInuse.Set(int64(m.memStats.MCacheInuse))\n	m.stackMCacheSys.Set(int64(m.memStats.MCacheSys))\n\n	m.gcSys.Set(int64(m.memStats.GCSys))\n	m.otherSys.Set(int64(m.memStats.OtherSys))\n\n	_')
bad('C36',RM,'	m.gcCPUFraction.Set(m.memStats.GCCPUFraction)\n}\n\nfunc newCPU','}\n\nfunc newCPU')
bad('C36',RM,'		return int64(m.memStats.Lookups)','		return int64(m.memStats.Mallocs)')
bad('C36',RM,'		return int64(m.memStats.PauseTotalNs) / int64(time.Millisecond)','		return int64(m.memStats.PauseTotalNs) / int64(time.Microsecond)')
bad('C36',RM,'func (m *memStats) read() {\n	runtime.ReadMemStats(&m.memStats)\n\n	m.memAlloc.Set(int64(m.memStats.Alloc))\n','func (m *memStats) read() {\n	m.memAlloc.Set(int64(m.memStats.Alloc))\n	runtime.ReadMemStats(&m.memStats)\n\n')
bad('C36',RM,'func (m *memStats) read() {\n	runtime.ReadMemStats(&m.memStats)\n','func (m *memStats) read() {\n	if m.memStats.NumGC == 0 {\n		runtime.ReadMemStats(&m.memStats)\n	}\n')
bad('C36',RM,'	p.mu.Lock()\n	defer p.mu.Unlock()\n\n	if p.dep','	if p.dep')
bad('C36',RM,'	p.mu.Lock()\n	defer p.mu.Unlock()\n\n	if p.deprecatedMemStats != nil {\n		p.deprecatedMemStats.read()\n	}\n','	p.mu.Lock()\n	if p.deprecatedMemStats != nil {\n		p.deprecatedMemStats.read()\n	}\n	p.mu.Unlock()\n')
bad('C36',RM,'	if p.deprecatedMemStats != nil {\n		p.deprecatedMemStats.read()\n	}\n\n	if p.memStats','	if p.memStats')
bad('C36',RM,'	if p.cpuStats != nil {\n		p.cpuStats.read()','	if p.cpuStats != nil && p.memStats == nil {\n		p.cpuStats.read()')
bad('C36',RM,'	if p.cpuStats != nil {\n		p.cpuStats.read()\n	}\n\n	return p.reg.Read()','	ms := p.reg.Read()\n	if p.cpuStats != nil {\n		p.cpuStats.read()\n	}\n\n	return ms')
bad('C36',RM,'	metricproducer.GlobalManager().DeleteProducer(enabledProducer)\n	metricproducer.GlobalManager().AddProducer(producer)','	metricproducer.GlobalManager().AddProducer(producer)')
bad('C36',RM,'	metricproducer.GlobalManager().DeleteProducer(enabledProducer)\n	enabledProducer = nil','	enabledProducer = nil\n	metricproducer.GlobalManager().DeleteProducer(enabledProducer)')
bad('C36',RM,'	if options.EnableCPU {','	if options.EnableCPU || options.EnableMemory {')
bad('C36',RM,'	if options.EnableMemory {','	if options.EnableMemory && !options.EnableCPU {')
bad('C36',RM,'	c.numGoroutines.Set(int64(runtime.NumGoroutine()))','	c.numGoroutines.Set(int64(runtime.NumCPU()))')
bad('C36',RM,'memStats.stackMSpanSys, err = producer.createInt64GaugeEntry("process/sys_stack_mspan", "Bytes of memory obtained from the OS for mspan structures", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n\n	memStats.stackMCacheInuse, err = producer.createInt64GaugeEntry("process/stack_mcache_inuse", "Bytes of allocated mcache structures", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n\n	memStats.stackMCacheSys, err = producer.createInt64GaugeEntry("process/sys_stack_mcache", "Bytes of memory obtained from the OS for mcache structures", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n\n	// GC\n	memStats.gcSys, err = producer.createInt64GaugeEntry("process/gc_sys", "Bytes of memory in garbage collection metadatas", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n\n	memStats.otherSys, err = producer.createInt64GaugeEntry("process/other_sys", "Bytes of memory in miscellaneous off-heap runtime allocations", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n\n	memStats.numGC, err = producer.createInt64D','memStats.stackMSpanSys, err = producer.createInt64GaugeEntry("process/sys_stack_mcache", "Bytes of memory obtained from the OS for mspan structures", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n\n	memStats.stackMCacheInuse, err = producer.createInt64GaugeEntry("process/stack_mcache_inuse", "Bytes of allocated mcache structures", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n\n	memStats.stackMCacheSys, err = producer.createInt64GaugeEntry("process/sys_stack_mspan", "Bytes of memory obtained from the OS for mcache structures", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n\n	// GC\n	memStats.gcSys, err = producer.createInt64GaugeEntry("process/gc_sys", "Bytes of memory in garbage collection metadatas", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n\n	memStats.otherSys, err = producer.createInt64GaugeEntry("process/other_sys", "Bytes of memory in miscellaneous off-heap runtime allocations", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n\n	memStats.numGC, err = producer.createInt64D')
bad('C36',RM,'	producer := &producer{options: options, reg: metric.NewRegistry()}\n','	producer := &producer{options: options, reg: metric.NewRegistry()}\n	if enabledProducer != nil {\n		producer = enabledProducer\n	}\n')
ok('C36',RM,'	if p.cpuStats != nil {\n		p.cpuStats.read()\n	}\n\n	return p.reg.Read()','	p.cpu()\n\n	return p.reg.Read()\n}\n\nfunc (p *producer) cpu() {\n	if c := p.cpuStats; c != nil {\n		c.read()\n	}')
ok('C36',[(RM,'func (m *memStats) read() {\n	runtime.ReadMemStats(&m.memStats)\n\n	m.memAlloc.Set(int64(m.memStats.Alloc))\n','func (m *memStats) read() {\n	runtime.ReadMemStats(&m.memStats)\n	stats := &m.memStats\n	m.memAlloc.Set(int64(stats.Alloc))\n')])
ok('C36',RM,'func (m *deprecatedMemStats) read() {\n	runtime.ReadMemStats(&m.memStats)\n\n	m.memAlloc.Set(int64(m.memStats.Alloc))\n	m.memTotal.Set(int64(m.memStats.TotalAlloc))','func (m *deprecatedMemStats) read() {\n	var ms runtime.MemStats\n	runtime.ReadMemStats(&ms)\n	runtime.ReadMemStats(&m.memStats)\n\n	m.memTotal.Set(int64(ms.TotalAlloc))\n	m.memAlloc.Set(int64(ms.Alloc))')
ok('C36',[(RM,'	_ = m.memTotal.UpsertEntry(func() int64 {\n		return int64(m.memStats.TotalAlloc)\n	})\n\n',''),(RM,'	memStats.memTotal, err = producer.createInt64DerivedCumulative("process/total_memory_alloc", "Number of allocations in total", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n','	memStats.memTotal, err = producer.createInt64DerivedCumulative("process/total_memory_alloc", "Number of allocations in total", metricdata.UnitBytes)\n	if err != nil {\n		return nil, err\n	}\n	_ = memStats.memTotal.UpsertEntry(func() int64 {\n		return int64(memStats.memStats.TotalAlloc)\n	})\n')])
ok('C36',RM,'		switch options.UseDerivedCumulative {\n		case true:\n			producer.memStats, err = newMemStats(producer)\n			if err != nil {\n				return err\n			}\n		default:\n			producer.deprecatedMemStats, err = newDeprecatedMemStats(producer)\n			if err != nil {\n				return err\n			}\n		}\n','		if options.UseDerivedCumulative {\n			producer.memStats, err = newMemStats(producer)\n		} else {\n			producer.deprecatedMemStats, err = newDeprecatedMemStats(producer)\n		}\n		if err != nil {\n			return err\n		}\n')
ok('C36',RM,'	metricproducer.GlobalManager().DeleteProducer(enabledProducer)\n	metricproducer.GlobalManager().AddProducer(producer)\n	enabledProducer = producer\n','	manager := metricproducer.GlobalManager()\n	manager.AddProducer(producer)\n	if enabledProducer != nil {\n		manager.DeleteProducer(enabledProducer)\n	}\n	enabledProducer = producer\n')
ok('C36',RM,'	if len(p.options.Prefix) > 0 {\n		name = p.options.Prefix + name\n	}\n\n	cumul','	name = p.options.Prefix + name\n\n	cumul')
# ---- C35
bad('C35',ZR,'		case ocgrpc.ServerSentBytesPerRPCView:\n			s.OutputRateTotal = computeRate(0, sum)\n\n		case ocgrpc.ServerReceivedBytesPerRPCView:\n			s.InputRateTotal','		case ocgrpc.ServerSentBytesPerRPCView:\n			s.InputRateTotal = computeRate(0, sum)\n\n		case ocgrpc.ServerReceivedBytesPerRPCView:\n			s.OutputRateTotal')
bad('C35',ZR,'		ocgrpc.ClientRoundtripLatencyView:       false,\n','')
bad('C35',ZR,'		ocgrpc.ServerLatencyView:                true,','		ocgrpc.ServerLatencyView:                false,')
bad('C35',ZR,'		case ocgrpc.ClientCompletedRPCsView:\n			if _, ok := haveResetErrors[method]; !ok {\n				haveResetErrors[method] = struct{}{}\n				s.ErrorsTotal = 0\n			}\n','		case ocgrpc.ClientCompletedRPCsView:\n')
bad('C35',ZR,'		case ocgrpc.ServerCompletedRPCsView:\n			if _, ok := haveResetErrors[method]; !ok {\n				haveResetErrors[method] = struct{}{}\n				s.ErrorsTotal = 0\n			}\n','		case ocgrpc.ServerCompletedRPCsView:\n			s.ErrorsTotal = 0\n')
bad('C35',ZR,'tag.Key == ocgrpc.KeyClientStatus && tag.Value != "OK"','tag.Key == ocgrpc.KeyClientStatus')
bad('C35',ZR,'tag.Key == ocgrpc.KeyServerStatus && tag','tag.Key == ocgrpc.KeyClientStatus && tag')
bad('C35',ZR,'float64(time.Millisecond) * ms','float64(time.Microsecond) * ms')
bad('C35',ZR,'	mu.Lock()\n	defer mu.Unlock()\n	for _, row','	for _, row')
bad('C35',ZR,'	mu.Lock()\n	defer mu.Unlock()\n	if err := statsTemplate.Execute(w, getStatsPage()); err != nil {\n		log.Printf("zpages: executing template: %v", err)\n	}\n','	mu.Lock()\n	page := getStatsPage()\n	mu.Unlock()\n	if err := statsTemplate.Execute(w, page); err != nil {\n		log.Printf("zpages: executing template: %v", err)\n	}\n')
bad('C35',ZR,'	mu.Lock()\n	defer mu.Unlock()\n	page :=','	page :=')
bad('C35',ZR,'	view.RegisterExporter(snapExporter{})\n','')
bad('C35',ZR,'	for v := range viewType {\n		views','	for v, recv := range viewType {\n		if !recv && v.Aggregation == nil {\n			continue\n		}\n		views')
bad('C35',ZR,'			receivedStats.Snapshots = append(receivedStats.Snapshots, sg)\n		} else {\n			sentStats.Snapshots = append(sentStats.Snapshots, sg)','			sentStats.Snapshots = append(sentStats.Snapshots, sg)\n		} else {\n			receivedStats.Snapshots = append(receivedStats.Snapshots, sg)')
bad('C35',ZR,'[]*statGroup{&sentStats, &receivedStats}','[]*statGroup{&receivedStats, &sentStats}')
bad('C35',ZR,'				s.RPCRateMinute,\n				s.RPCRateHour,\n				s.RPCRateTotal,\n				s.InputRateMinute/bytesPerKb,\n				s.InputRateHour/bytesPerKb,\n				s.InputRateTotal/bytesPerKb,\n				s.OutputRateMinute/bytesPerKb,\n				s.OutputRateHour/bytesPerKb,\n				s.OutputRateTotal/bytesPerKb,','				s.RPCRateMinute,\n				s.RPCRateHour,\n				s.RPCRateTotal,\n				s.OutputRateMinute/bytesPerKb,\n				s.OutputRateHour/bytesPerKb,\n				s.OutputRateTotal/bytesPerKb,\n				s.InputRateMinute/bytesPerKb,\n				s.InputRateHour/bytesPerKb,\n				s.InputRateTotal/bytesPerKb,')
bad('C35',ZR,'key := methodKey{method: method, received: received}','key := methodKey{method: method}')
bad('C35',ZR,'	if len(vd.Rows) == 0 {\n','	if len(vd.Rows) == 0 || vd.End.IsZero() {\n')
bad('C35',ZR,'		case ocgrpc.ClientRoundtripLatencyView:\n			s.AvgLatencyTotal = convertTime(sum / count)','		case ocgrpc.ClientRoundtripLatencyView:\n			s.AvgLatencyTotal = convertTime(count / sum)')
bad('C35',ZR,'		case ocgrpc.ServerReceivedMessagesPerRPCView:\n			s.CountTotal = uint64(count)\n			s.RPCRateTotal = computeRate(0, count)','		case ocgrpc.ServerReceivedMessagesPerRPCView:\n			s.CountTotal = uint64(sum)\n			s.RPCRateTotal = computeRate(0, sum)')
bad('C35',ZT,'		time.Second,\n		10 * time.Second,\n		time.Minute,\n','		time.Second,\n		10 * time.Second,\n		100 * time.Second,\n')
bad('C35','trace/spanbucket.go','	10 * time.Second,\n	time.Minute,\n','	10 * time.Second,\n	100 * time.Second,\n')
bad('C35',ZT,'		} else if 0 < spanSubtype && spanSubtype < n {\n			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]','		} else if 0 < spanSubtype && spanSubtype < n-1 {\n			min, max = defaultLatencies[spanSubtype], defaultLatencies[spanSubtype+1]')
bad('C35',ZT,'min, max = defaultLatencies[spanSubtype-1], (1<<63)-1','min, max = defaultLatencies[spanSubtype-1], time.Hour')
bad('C35',ZT,'	case 2: // error\n','	case 3: // error\n')
bad('C35',ZT,'r.Form.Get(spanSubtypeQueryField)','r.Form.Get(spanTypeQueryField)')
bad('C35',ZT,'spanSubtypeQueryField = "zsubtype"','spanSubtypeQueryField = "zsubType"')
bad('C35',ZT,'WriteHTMLTracezSpans(w, spanName, spanType, spanSubtype)\n	if err','WriteHTMLTracezSpans(w, spanName, spanSubtype, spanType)\n	if err')
bad('C35',ZT,'Name: name, Active: s.Active}','Name: name, Active: len(s.LatencyBuckets)}')
bad('C35',ZT,'		for _, e := range s.ErrorBuckets {\n			row.Errors += e.Size\n		}\n','		for _, e := range s.ErrorBuckets {\n			row.Errors = e.Size\n		}\n')
bad('C35',ZT,'		for _, l := range s.LatencyBuckets {\n			row.Latency = append(row.Latency, l.Size)\n','		for _, l := range s.LatencyBuckets {\n			if l.Size == 0 {\n				continue\n			}\n			row.Latency = append(row.Latency, l.Size)\n')
ok('C35',[(ZR,'		case ocgrpc.ClientSentBytesPerRPCView:\n','		case ocgrpc.ClientSentBytesPerRPCView, ocgrpc.ServerSentBytesPerRPCView:\n'),(ZR,'		case ocgrpc.ServerSentBytesPerRPCView:\n			s.OutputRateTotal = computeRate(0, sum)\n\n','')])
ok('C35',ZR,'			s.AvgLatencyTotal = convertTime(sum / count)\n\n		case ocgrpc.ServerSentBytes','			if count > 0 {\n				s.AvgLatencyTotal = time.Duration(sum / count * float64(time.Millisecond))\n			} else {\n				s.AvgLatencyTotal = 0\n			}\n\n		case ocgrpc.ServerSentBytes')
ok('C35',ZR,'	ageSec := float64(time.Since(programStartTime)) / float64(time.Second)\n','	ageSec := time.Since(programStartTime).Seconds()\n')
ok('C35',[(ZR,'	mu.Lock()\n	defer mu.Unlock()\n	for _, row := range vd.Rows {\n		var method string\n		for _, tag := range row.Tags {\n			if tag.Key == ocgrpc.KeyClientMethod || tag.Key == ocgrpc.KeyServerMethod {\n				method = tag.Value\n				break\n			}\n		}\n','	mu.Lock()\n	defer mu.Unlock()\n	for _, row := range vd.Rows {\n		method := methodOf(row)\n'),(ZR,'func getStatsPage()','func methodOf(row *view.Row) string {\n	for _, tag := range row.Tags {\n		if tag.Key == ocgrpc.KeyClientMethod || tag.Key == ocgrpc.KeyServerMethod {\n			return tag.Value\n		}\n	}\n	return ""\n}\n\nfunc getStatsPage()')])
ok('C35',[(ZR,'		s := snaps[key]\n		if s == nil {\n			s = &statSnapshot{Method: method, Received: received}\n			snaps[key] = s\n		}\n','		s := snapshotOf(key)\n'),(ZR,'func getStatsPage()','func snapshotOf(key methodKey) *statSnapshot {\n	if s, ok := snaps[key]; ok && s != nil {\n		return s\n	}\n	s := &statSnapshot{Method: key.method, Received: key.received}\n	snaps[key] = s\n	return s\n}\n\nfunc getStatsPage()')])
ok('C35',ZT,'		if spanSubtype == 0 {\n			max = defaultLatencies[0]\n		} else if spanSubtype == n {\n			min, max = defaultLatencies[spanSubtype-1], (1<<63)-1\n		} else if 0 < spanSubtype && spanSubtype < n {\n			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]\n		}\n','		if spanSubtype >= 0 && spanSubtype <= n {\n			if spanSubtype > 0 {\n				min = defaultLatencies[spanSubtype-1]\n			}\n			max = 1<<63 - 1\n			if spanSubtype < n {\n				max = defaultLatencies[spanSubtype]\n			}\n		}\n')
ok('C35',[(ZT,'		for _, e := range s.ErrorBuckets {\n			row.Errors += e.Size\n		}\n','		errs := 0\n		for i := range s.ErrorBuckets {\n			errs += s.ErrorBuckets[i].Size\n		}\n		row.Errors = errs\n')])
ok('C35',ZT,'		row := summaryPageRow{Name: name, Active: s.Active}\n		for _, l','		row := summaryPageRow{Active: s.Active, Latency: make([]int, 0, len(s.LatencyBuckets))}\n		row.Name = name\n		for _, l')
ok('C35',ZR,'	for key, sg := range snaps {\n		if key.received {\n			receivedStats.Snapshots = append(receivedStats.Snapshots, sg)\n		} else {\n			sentStats.Snapshots = append(sentStats.Snapshots, sg)\n		}\n	}\n','	for key, sg := range snaps {\n		group := &sentStats\n		if key.received {\n			group = &receivedStats\n		}\n		group.Snapshots = append(group.Snapshots, sg)\n	}\n')
ok('C35',ZR,'	mu.Lock()\n	defer mu.Unlock()\n	if err := statsTemplate.Execute(w, getStatsPage()); err != nil {\n		log.Printf("zpages: executing template: %v", err)\n	}\n','	mu.Lock()\n	defer mu.Unlock()\n	page := getStatsPage()\n	if err := statsTemplate.Execute(w, page); err != nil {\n		log.Printf("zpages: executing template: %v", err)\n	}\n')
# ---- C37
SS='trace/spanstore.go'
bad('C37',SS,'	s.mu.Lock()\n	delete(s.active, span)\n','	s.mu.Lock()\n	delete(s.active, span)\n	if sd.Name == "" {\n		return\n	}\n')
bad('C37','trace/trace.go','	s.mu.Lock()\n	s.data.Status = status\n	s.mu.Unlock()\n','	s.mu.Lock()\n	if status.Code != s.data.Status.Code || s.data.Status.Message == "" {\n		s.data.Status = status\n		s.mu.Unlock()\n	}\n')
bad('C37','stats/view/worker.go','func (w *worker) reportUsage() {\n	w.mu.Lock()\n	defer w.mu.Unlock()\n	for _, v := range w.views {\n		w.reportView(v)\n	}\n','func (w *worker) reportUsage() {\n	w.mu.Lock()\n	for _, v := range w.views {\n		w.reportView(v)\n	}\n	w.mu.Unlock()\n')
bad('C37','stats/view/worker.go','	if w.running || w.stopped {\n		w.stateMu.Unlock()\n		return\n	}\n','	if w.running {\n		w.stateMu.Unlock()\n		return\n	}\n	if w.stopped {\n		return\n	}\n')
bad('C37','stats/view/worker.go','	w.exporters[e] = struct{}{}\n','	w.exporters[e] = struct{}{}\n	w.mu.Lock()\n	for v := range w.viewStartTimes {\n		v.isSubscribed()\n	}\n	w.mu.Unlock()\n')
bad('C37','stats/view/worker.go','			return nil, fmt.Errorf("cannot register view %q; a different view','			w.unregisterView(x)\n			return nil, fmt.Errorf("cannot register view %q; a different view')
bad('C37','stats/view/worker.go','	w.mu.Lock()\n	defer w.mu.Unlock()\n	w.r = r\n','	w.mu.Lock()\n	defer w.mu.Unlock()\n	w.r = r\n	w.SetReportingPeriod(0)\n')
bad('C37','stats/view/worker.go','	w.mu.Lock()\n	defer w.mu.Unlock()\n	w.r = r\n','	w.mu.Lock()\n	defer w.mu.Unlock()\n	if w.Find("x") == nil {\n		return\n	}\n	w.r = r\n')
bad('C37','metric/metricproducer/manager.go','	defer pm.mu.Unlock()\n	pm.producers[producer] = struct{}{}\n','	defer pm.mu.Unlock()\n	for _, p := range pm.GetAll() {\n		if p == producer {\n			return\n		}\n	}\n	pm.producers[producer] = struct{}{}\n')
bad('C37','metric/metricexport/reader.go','		case <-ir.timer.C:\n			ir.reader','		case <-ir.timer.C:\n			ir.mu.RLock()\n			reader := ir.reader\n			ir.mu.RUnlock()\n			reader')
bad('C37',SS,'			Active: len(s.active),\n','			Active: len(internalOnly{}.ReportActiveSpans(name)),\n')
bad('C37',SS,'	s.mu.Lock()\n	defer s.mu.Unlock()\n	for activeSpan','	s.mu.Lock()\n	defer s.mu.Unlock()\n	if spanStoreForName(name) != s {\n		return nil\n	}\n	for activeSpan')
bad('C37',SS,'	ssmu.RLock()\n	defer ssmu.RUnlock()\n	for name, s := range spanStores {\n','	ssmu.RLock()\n	defer ssmu.RUnlock()\n	for name := range spanStores {\n		s := spanStoreForName(name)\n')
bad('C37',SS,'	s, _ = spanStores[name]\n	ssmu.RUnlock()\n','	s, _ = spanStores[name]\n	ssmu.Unlock()\n')
bad('C37','plugin/runmetrics/producer.go','	metricproducer.GlobalManager().DeleteProducer(enabledProducer)\n	metricproducer.GlobalManager().AddProducer(producer)\n','	if enabledProducer != nil {\n		Disable()\n	}\n	metricproducer.GlobalManager().AddProducer(producer)\n')
bad('C37','zpages/rpcz.go','		key := methodKey{method: method, received: received}\n','		if view.Find(vd.View.Name) == nil {\n			return\n		}\n		key := methodKey{method: method, received: received}\n')
bad('C37','trace/export.go','	delete(new, e)\n	exporters','	if _, ok := new[e]; !ok {\n		return\n	}\n	delete(new, e)\n	exporters')
bad('C37','trace/trace.go','			if s.spanStore != nil {\n				s.spanStore.finished(s, sd)\n','			if s.spanStore != nil {\n				s.spanStore.finished(s, sd)\n				s.End()\n')
bad('C37',SS,'	ssmu.Lock()\n	defer ssmu.Unlock()\n	s, ok = spanStores[name]\n	if ok {\n		s.resize(latencyBucketSize, errorBucketSize)\n		return\n	}\n	s = newSpanStore(name, latencyBucketSize, errorBucketSize)\n	spanStores[name] = s\n','	ssmu.Lock()\n	s, ok = spanStores[name]\n	if ok {\n		s.resize(latencyBucketSize, errorBucketSize)\n		return\n	}\n	s = newSpanStore(name, latencyBucketSize, errorBucketSize)\n	spanStores[name] = s\n	ssmu.Unlock()\n')
bad('C37','stats/measure.go','	if stored, ok := measures[name]; ok {\n','	if stored, ok := measures[name]; ok {\n		mu.Unlock()\n')
bad('C37','trace/config.go','	configWriteMu.Lock()\n	defer configWriteMu.Unlock()\n','	configWriteMu.Lock()\n	if cfg.DefaultSampler == nil {\n		return\n	}\n	defer configWriteMu.Unlock()\n')
bad('C37','trace/trace.go','	s.mu.Lock()\n	sd = *s.data\n','	s.mu.Lock()\n	if s.spanStore != nil {\n		s.spanStore.mu.Lock()\n		defer s.spanStore.mu.Unlock()\n	}\n	sd = *s.data\n')
ok('C37',SS,'	s.mu.Lock()\n	defer s.mu.Unlock()\n	for activeSpan := range s.active {\n		if s, ok := activeSpan.(*span); ok {\n			out = append(out, s.makeSpanData())\n		}\n	}\n','	s.mu.Lock()\n	for activeSpan := range s.active {\n		if s, ok := activeSpan.(*span); ok {\n			out = append(out, s.makeSpanData())\n		}\n	}\n	s.mu.Unlock()\n')
ok('C37',[(SS,'	ssmu.RLock()\n	s, _ = spanStores[name]\n	ssmu.RUnlock()\n','	defer rlocked()()\n	s, _ = spanStores[name]\n'),(SS,'// spanStoreForNameCreate','func rlocked() func() {\n	ssmu.RLock()\n	return func() { ssmu.RUnlock() }\n}\n\n// spanStoreForNameCreate')])
ok('C37',[(SS,'	s.mu.Lock()\n	s.active[span] = struct{}{}\n	s.mu.Unlock()\n','	s.locked(func() {\n		s.active[span] = struct{}{}\n	})\n'),(SS,'// add adds a span','func (s *spanStore) locked(f func()) {\n	s.mu.Lock()\n	defer s.mu.Unlock()\n	f()\n}\n\n// add adds a span')])
ok('C37',[(SS,'	s.mu.Lock()\n	s.active[span] = struct{}{}\n	s.mu.Unlock()\n','	s.lock()\n	s.active[span] = struct{}{}\n	s.unlock()\n'),(SS,'// add adds a span','func (s *spanStore) lock()   { s.mu.Lock() }\nfunc (s *spanStore) unlock() { s.mu.Unlock() }\n\n// add adds a span')])
ok('C37','stats/view/worker.go','	w.stateMu.Lock()\n	if w.running || w.stopped {\n		w.stateMu.Unlock()\n		return\n	}\n	w.running = true\n	prodMgr := metricproducer.GlobalManager()\n	prodMgr.AddProducer(w)\n	w.stateMu.Unlock()\n','	w.stateMu.Lock()\n	ok := !w.running && !w.stopped\n	if ok {\n		w.running = true\n		prodMgr := metricproducer.GlobalManager()\n		prodMgr.AddProducer(w)\n	}\n	w.stateMu.Unlock()\n	if !ok {\n		return\n	}\n')
ok('C37','stats/view/worker_commands.go','		if !vi.isSubscribed() {\n			// this was the last subscription and view is not collecting anymore.\n			// The collected data can be cleared.\n			w.mu.Lock()\n			vi.clearRows()\n			w.mu.Unlock()\n		}\n','		last := !vi.isSubscribed()\n		if last {\n			w.mu.Lock()\n		}\n		if last {\n			vi.clearRows()\n			w.mu.Unlock()\n		}\n')
ok('C37','stats/view/worker_commands.go','		if !vi.isSubscribed() {\n			// this was the last subscription and view is not collecting anymore.\n			// The collected data can be cleared.\n			w.mu.Lock()\n			vi.clearRows()\n			w.mu.Unlock()\n		}\n','		w.clear(vi)\n'[:0]+'		func() {\n			if vi.isSubscribed() {\n				return\n			}\n			w.mu.Lock()\n			defer w.mu.Unlock()\n			vi.clearRows()\n		}()\n')
ok('C37','stats/view/worker.go','	w.mu.Lock()\n	defer w.mu.Unlock()\n	w.r = r\n','	m := &w.mu\n	m.Lock()\n	w.r = r\n	m.Unlock()\n')
ok('C37','stats/view/worker.go','	prodMgr := metricproducer.GlobalManager()\n	prodMgr.DeleteProducer(w)\n	w.stateMu.Unlock()\n	<-w.done\n','	w.stateMu.Unlock()\n	metricproducer.GlobalManager().DeleteProducer(w)\n	<-w.done\n')
ok('C37','metric/metricproducer/manager.go','	pm.mu.Lock()\n	defer pm.mu.Unlock()\n	producers := make([]Producer, len(pm.producers))\n	i := 0\n	for producer := range pm.producers {\n		producers[i] = producer\n		i++\n	}\n	return producers\n','	pm.mu.RLock()\n	producers := make([]Producer, 0, len(pm.producers))\n	for producer := range pm.producers {\n		producers = append(producers, producer)\n	}\n	pm.mu.RUnlock()\n	return producers\n')
ok('C37','metric/metricexport/reader.go','	ir.mu.Lock()\n	defer ir.mu.Unlock()\n	if ir.quit == nil {\n		return\n	}\n	ir.quit <- true\n	<-ir.done\n	close(ir.quit)\n	close(ir.done)\n	ir.quit = nil\n','	ir.mu.Lock()\n	defer ir.mu.Unlock()\n	if ir.quit != nil {\n		close(ir.quit)\n		<-ir.done\n		ir.quit = nil\n	}\n')
# ---- C38
bad('C38','stats/measure.go','return atomic.LoadInt32(&m.subs) == 1','return m.subs == 1')
bad('C38','stats/view/view.go','	atomic.StoreUint32(&v.subscribed, 0)','	v.subscribed = 0')
bad('C38','metric/gauge.go','	v := atomic.LoadInt64(&e.val)\n','	v := e.val\n')
bad('C38','metric/gauge.go','	atomic.StoreInt64(&e.val, val)\n','	*e = Int64GaugeEntry{val}\n')
bad('C38','metric/cumulative.go','	atomic.AddInt64(&e.val, val)\n','	p := &e.val\n	*p += val\n')
bad('C38','metric/cumulative.go','		oldVal := atomic.LoadUint64(&e.val)\n','		oldVal := e.val\n')
bad('C38','plugin/ochttp/client_stats.go','	respSize          int64 // accessed atomically: the body may be closed during a read\n	ctx               context.Context\n	respContentLength int64\n	reqSize           int64\n	start             time.Time\n	body              io.ReadCloser\n	statusCode        int\n','	ctx               context.Context\n	respContentLength int64\n	reqSize           int64\n	start             time.Time\n	body              io.ReadCloser\n	respSize          int64 // accessed atomically: the body may be closed during a read\n	statusCode        int\n')
bad('C38','plugin/ocgrpc/stats_common.go','	sentCount, sentBytes, recvCount, recvBytes int64 // access atomically\n\n	// startTime represents the time at which TagRPC was invoked at the\n	// beginning of an RPC. It is an appoximation of the time when the\n	// application code invoked GRPC code.\n	startTime time.Time\n	method    string\n','	client                                     bool\n	sentCount, sentBytes, recvCount, recvBytes int64 // access atomically\n\n	// startTime represents the time at which TagRPC was invoked at the\n	// beginning of an RPC. It is an appoximation of the time when the\n	// application code invoked GRPC code.\n	startTime time.Time\n	method    string\n')
bad('C38','plugin/ocgrpc/stats_common.go','ClientSentBytesPerRPC.M(atomic.LoadInt64(&d.sentBytes))','ClientSentBytesPerRPC.M(d.sentBytes)')
bad('C38','plugin/ocgrpc/stats_common.go','	atomic.AddInt64(&d.recvCount, 1)','	d.recvCount++')
bad('C38','trace/trace.go','	// Please keep these as the first fields\n','	seeded bool\n\n	// Please keep these as the first fields\n')
bad('C38','trace/trace.go','		gen.spanIDInc |= 1\n	})\n','		gen.spanIDInc |= 1\n	})\n	if gen.nextSpanID == 0 {\n		gen.nextSpanID = 1\n	}\n')
bad('C38',[('metric/gauge.go','type Int64GaugeEntry struct {\n	val int64\n}','type Int64GaugeEntry struct {\n	val int64\n	set bool\n}'),('metric/gauge.go','		return &Int64GaugeEntry{}\n','		return &make([]Int64GaugeEntry, 4)[0]\n')])
bad('C38',[('metric/gauge.go','type Int64GaugeEntry struct {\n	val int64\n}','type Int64GaugeEntry struct {\n	set bool\n	int64Value\n}\n\ntype int64Value struct {\n	val int64\n}')])
bad('C38',[('stats/measure.go','	atomic.StoreInt32(&m.subs, 1)','	m.subs = 1'),('stats/measure.go','atomic.LoadInt32(&m.subs) == 1','m.subs == 1'),('stats/measure.go','	"sync/atomic"\n','')])
ok('C38',[('plugin/ocgrpc/stats_common.go','	atomic.AddInt64(&d.recvCount, 1)','	count(&d.recvCount)'),('plugin/ocgrpc/stats_common.go','func handleRPCEnd(','func count(p *int64) {\n	atomic.AddInt64(p, 1)\n}\n\nfunc handleRPCEnd(')])
ok('C38','metric/gauge.go','		return &Int64GaugeEntry{}\n','		e := &Int64GaugeEntry{}\n		e.val = 0\n		return e\n')
ok('C38','metric/gauge.go','		return &Int64GaugeEntry{}\n','		return &Int64GaugeEntry{val: 0}\n')
ok('C38',[('stats/measure.go','	subs int32 // access atomically','	subsMu sync.Mutex\n	subs   int32'),('stats/measure.go','	atomic.StoreInt32(&m.subs, 1)','	m.subsMu.Lock()\n	m.subs = 1\n	m.subsMu.Unlock()'),('stats/measure.go','	return atomic.LoadInt32(&m.subs) == 1','	m.subsMu.Lock()\n	defer m.subsMu.Unlock()\n	return m.subs == 1'),('stats/measure.go','	"sync/atomic"\n','')])
ok('C38','plugin/ochttp/client_stats.go','	n, err := t.body.Read(b)\n	atomic.AddInt64(&t.respSize, int64(n))\n','	size := &t.respSize\n	n, err := t.body.Read(b)\n	if n != 0 {\n		atomic.AddInt64(size, int64(n))\n	}\n')
bad('C36',RM,'	enableMutex.Lock()\n	defer enableMutex.Unlock()\n\n	metricproducer.GlobalManager().DeleteProducer(enabledProducer)\n	enabledProducer = nil','	old := enabledProducer\n	enableMutex.Lock()\n	defer enableMutex.Unlock()\n\n	enabledProducer = nil\n	metricproducer.GlobalManager().DeleteProducer(old)')
bad('C36',RM,'	enableMutex.Lock()\n	defer enableMutex.Unlock()\n\n	metricproducer.GlobalManager().DeleteProducer(enabledProducer)\n	enabledProducer = nil','	enableMutex.Lock()\n	old := enabledProducer\n	enabledProducer = nil\n	enableMutex.Unlock()\n\n	metricproducer.GlobalManager().DeleteProducer(old)')
bad('C36',RM,'	enableMutex.Lock()\n	defer enableMutex.Unlock()\n\n	metricproducer.GlobalManager().DeleteProducer(enabledProducer)\n	metricproducer','	enableMutex.Lock()\n	metricproducer.GlobalManager().DeleteProducer(enabledProducer)\n	enableMutex.Unlock()\n\n	enableMutex.Lock()\n	defer enableMutex.Unlock()\n	metricproducer')
bad('C25','metric/gauge.go','	var swapped bool\n	for !swapped {\n		oldVal := atomic.LoadUint64(&e.val)\n		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)\n		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)\n	}\n','	var swapped bool\n	for i := 0; i < 100 && !swapped; i++ {\n		oldVal := atomic.LoadUint64(&e.val)\n		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)\n		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)\n	}\n')
bad('C19',TE,'	vb.growIfRequired(1 + length)','	vb.growIfRequired(length)')
bad('C19',TE,'		tmp := make([]byte, 2*(len(vb.Buffer)+1)+expected)','		tmp := make([]byte, 2*(len(vb.Buffer)+1))')
bad('C19',TE,'	if len(vb.Buffer)-vb.WriteIndex < expected {','	if len(vb.Buffer) < expected {')
bad('C39','resource/resource.go','		s += k + "=" + strconv.Quote(labels[k])','		s += fmt.Sprintf("%s=%s", k, labels[k])')
bad('C39','resource/resource.go','		s += k + "=" + strconv.Quote(labels[k])','		s += fmt.Sprintf("%q=%q", k, labels[k])')
bad('C39','resource/resource.go','		s += k + "=" + strconv.Quote(labels[k])','		s += fmt.Sprintf("%s=%q", labels[k], k)')
_TL='	gen.Lock()\n	for tid == ([16]byte{}) {\n		binary.LittleEndian.PutUint64(tid[0:8], gen.traceIDRand.Uint64()+gen.traceIDAdd[0])\n		binary.LittleEndian.PutUint64(tid[8:16], gen.traceIDRand.Uint64()+gen.traceIDAdd[1])\n	}\n	gen.Unlock()\n	return tid\n'
_TN='	gen.Lock()\n	defer gen.Unlock()\n	for {\n		lo := gen.traceIDRand.Uint64() + gen.traceIDAdd[0]\n		hi := gen.traceIDRand.Uint64() + gen.traceIDAdd[1]\n		if lo == 0 && hi %s 0 {\n			continue\n		}\n		binary.LittleEndian.PutUint64(tid[:8], lo)\n		binary.LittleEndian.PutUint64(tid[%s:], hi)\n		return tid\n	}\n'
bad('C07','trace/trace.go',_TL,_TN%('!=','8'))
bad('C07','trace/trace.go',_TL,_TN%('==','0'))
ok('C07','trace/trace.go',_TL,_TN%('==','8'))
_REG='	exporterMu.Lock()\n	new := make(exportersMap)\n	if old, ok := exporters.Load().(exportersMap); ok {\n		for k, v := range old {\n			new[k] = v\n		}\n	}\n	new[e] = struct{}{}\n	exporters.Store(new)\n	exporterMu.Unlock()\n'
_UNREG=_REG.replace('	new[e] = struct{}{}\n','	delete(new, e)\n')
bad('C08','trace/export.go',_REG,'	exporterMu.Lock()\n	defer exporterMu.Unlock()\n	old, _ := exporters.Load().(exportersMap)\n	if len(old) > 0 {\n		return\n	}\n	exporters.Store(exportersMap{e: {}})\n')
bad('C08','trace/export.go',_REG,'	exporterMu.Lock()\n	defer exporterMu.Unlock()\n	old, ok := exporters.Load().(exportersMap)\n	if ok {\n		exporters.Store(exportersMap{e: {}})\n		return\n	}\n	new := make(exportersMap, len(old)+1)\n	for k, v := range old {\n		new[k] = v\n	}\n	new[e] = struct{}{}\n	exporters.Store(new)\n')
bad('C08','trace/export.go',_UNREG,'	exporterMu.Lock()\n	defer exporterMu.Unlock()\n	old, _ := exporters.Load().(exportersMap)\n	if _, ok := old[e]; ok && len(old) == 1 {\n		return\n	}\n	new := make(exportersMap)\n	for k, v := range old {\n		new[k] = v\n	}\n	delete(new, e)\n	exporters.Store(new)\n')
bad('C08','trace/export.go',_REG,'	exporterMu.Lock()\n	defer exporterMu.Unlock()\n	old, ok := exporters.Load().(exportersMap)\n	if !ok {\n		return\n	}\n	new := make(exportersMap, len(old)+1)\n	for k, v := range old {\n		new[k] = v\n	}\n	new[e] = struct{}{}\n	exporters.Store(new)\n')
_QA='	if len(eq.queue) == eq.capacity {\n		eq.queue = eq.queue[1:]\n		eq.droppedCount++\n	}\n	eq.queue = append(eq.queue, value)\n'
bad('C05','trace/evictedqueue.go',_QA,'	if len(eq.queue) == eq.capacity {\n		copy(eq.queue[1:], eq.queue)\n		eq.queue = eq.queue[:len(eq.queue)-1]\n		eq.droppedCount++\n	}\n	eq.queue = append(eq.queue, value)\n')
bad('C05','trace/evictedqueue.go',_QA,'	if len(eq.queue) == eq.capacity {\n		eq.queue = eq.queue[:len(eq.queue)-1]\n		eq.droppedCount++\n	}\n	eq.queue = append(eq.queue, value)\n')
bad('C05','trace/evictedqueue.go',_QA,'	if n := len(eq.queue); n > 0 && n == eq.capacity {\n		copy(eq.queue, eq.queue[1:])\n		eq.queue[0] = value\n		eq.droppedCount++\n		return\n	}\n	eq.queue = append(eq.queue, value)\n')
bad('C05','trace/evictedqueue.go',_QA,'	if n := len(eq.queue); n > 0 && n == eq.capacity {\n		eq.queue[n-1] = value\n		copy(eq.queue, eq.queue[1:])\n		eq.droppedCount++\n		return\n	}\n	eq.queue = append(eq.queue, value)\n')
