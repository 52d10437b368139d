"""Edits that keep the behaviour, in the styles a maintainer would use; all
checks must stay quiet on each.  R: (name, [(file, old, new), ...])."""
R=[]
def r(name,*edits): R.append((name,list(edits)))
T='trace/trace.go'
r('trace/end-helper',(T,'''	s.endOnce.Do(func() {
		exp, _ := exporters.Load().(exportersMap)
		mustExport := s.spanContext.IsSampled() && len(exp) > 0
		if s.spanStore != nil || mustExport {
			sd := s.makeSpanData()
			sd.EndTime = internal.MonotonicEndTime(sd.StartTime)
			if s.spanStore != nil {
				s.spanStore.finished(s, sd)
			}
			if mustExport {
				for e := range exp {
					e.ExportSpan(sd)
				}
			}
		}
	})
}
''','''	s.endOnce.Do(s.finish)
}

// finish stores and exports the ended span.
func (s *span) finish() {
	exp, _ := exporters.Load().(exportersMap)
	mustExport := s.spanContext.IsSampled() && len(exp) > 0
	if s.spanStore == nil && !mustExport {
		return
	}
	sd := s.makeSpanData()
	sd.EndTime = internal.MonotonicEndTime(sd.StartTime)
	if s.spanStore != nil {
		s.spanStore.finished(s, sd)
	}
	if mustExport {
		exportAll(exp, sd)
	}
}

func exportAll(exp exportersMap, sd *SpanData) {
	for e := range exp {
		e.ExportSpan(sd)
	}
}
'''))
r('trace/end-nomust',(T,'''		mustExport := s.spanContext.IsSampled() && len(exp) > 0
''','''		if !s.spanContext.IsSampled() {
			exp = nil
		}
		mustExport := len(exp) > 0
'''))
r('trace/snapshot-defer',(T,'''	var sd SpanData
	s.mu.Lock()
	sd = *s.data
''','''	s.mu.Lock()
	defer s.mu.Unlock()
	sd := *s.data
'''),(T,'''		sd.DroppedLinkCount = s.links.droppedCount
	}
	s.mu.Unlock()
''','''		sd.DroppedLinkCount = s.links.droppedCount
	}
'''))
r('trace/snapshot-helpers',(T,'''	if s.lruAttributes.len() > 0 {
		sd.Attributes = s.lruAttributesToAttributeMap()
		sd.DroppedAttributeCount = s.lruAttributes.droppedCount
	}
	if len(s.annotations.queue) > 0 {
		sd.Annotations = s.interfaceArrayToAnnotationArray()
		sd.DroppedAnnotationCount = s.annotations.droppedCount
	}
''','''	s.copyAttributesTo(&sd)
	if n := len(s.annotations.queue); n != 0 {
		sd.DroppedAnnotationCount = s.annotations.droppedCount
		sd.Annotations = s.interfaceArrayToAnnotationArray()
	}
'''),(T,'''// SpanContext returns the SpanContext of the span.
func''','''func (s *span) copyAttributesTo(sd *SpanData) {
	if s.lruAttributes.len() == 0 {
		return
	}
	sd.DroppedAttributeCount = s.lruAttributes.droppedCount
	sd.Attributes = s.lruAttributesToAttributeMap()
}

// SpanContext returns the SpanContext of the span.
func'''))
r('trace/snapshot-index',(T,'''	linksArr := make([]Link, 0, len(s.links.queue))
	for _, value := range s.links.queue {
		linksArr = append(linksArr, value.(Link))
	}
	return linksArr''','''	linksArr := make([]Link, len(s.links.queue))
	for i := range s.links.queue {
		linksArr[i] = s.links.queue[i].(Link)
	}
	return linksArr'''),(T,'''	messageEventArr := make([]MessageEvent, 0, len(s.messageEvents.queue))
	for _, value := range s.messageEvents.queue {
		messageEventArr = append(messageEventArr, value.(MessageEvent))
	}
	return messageEventArr''','''	q := s.messageEvents.queue
	messageEventArr := make([]MessageEvent, len(q))
	for i := 0; i < len(q); i++ {
		messageEventArr[i] = q[i].(MessageEvent)
	}
	return messageEventArr'''),(T,'''	annotationArr := make([]Annotation, 0, len(s.annotations.queue))
''','''	var annotationArr []Annotation
'''))
r('trace/attrs-range',(T,'''	for _, key := range s.lruAttributes.keys() {
		value, ok := s.lruAttributes.get(key)
		if ok {
			keyStr := key.(string)
			attributes[keyStr] = value
		}
	}
''','''	for key, value := range s.lruAttributes.cacheKeys {
		attributes[key.(string)] = value
	}
'''))
r('trace/attrs-continue',(T,'''		value, ok := s.lruAttributes.get(key)
		if ok {
			keyStr := key.(string)
			attributes[keyStr] = value
		}
''','''		value, ok := s.lruAttributes.get(key)
		if !ok {
			continue
		}
		attributes[key.(string)] = value
'''))
r('trace/setname-invert',(T,'''	if !s.IsRecordingEvents() {
		return
	}
	s.mu.Lock()
	s.data.Name = name
	s.mu.Unlock()
''','''	if s.IsRecordingEvents() {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.data.Name = name
	}
'''),(T,'''	s.mu.Lock()
	s.data.Status = status
	s.mu.Unlock()
''','''	s.locked(func() { s.data.Status = status })
'''),(T,'''func (s *span) interfaceArrayToLinksArray''','''// locked runs f holding the lock of the span.
func (s *span) locked(f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f()
}

func (s *span) interfaceArrayToLinksArray'''))
r('trace/msg-helper',(T,'''	if !s.IsRecordingEvents() {
		return
	}
	now := time.Now()
	s.mu.Lock()
	s.messageEvents.add(MessageEvent{
		Time:                 now,
		EventType:            MessageEventTypeSent,
		MessageID:            messageID,
		UncompressedByteSize: uncompressedByteSize,
		CompressedByteSize:   compressedByteSize,
	})
	s.mu.Unlock()
}
''','''	s.addMessageEvent(MessageEventTypeSent, messageID, uncompressedByteSize, compressedByteSize)
}

func (s *span) addMessageEvent(typ MessageEventType, messageID, uncompressedByteSize, compressedByteSize int64) {
	if !s.IsRecordingEvents() {
		return
	}
	ev := MessageEvent{Time: time.Now(), EventType: typ}
	ev.MessageID = messageID
	ev.CompressedByteSize = compressedByteSize
	ev.UncompressedByteSize = uncompressedByteSize
	s.mu.Lock()
	defer s.mu.Unlock()
	s.messageEvents.add(ev)
}
'''),(T,'''	if !s.IsRecordingEvents() {
		return
	}
	now := time.Now()
	s.mu.Lock()
	s.messageEvents.add(MessageEvent{
		Time:                 now,
		EventType:            MessageEventTypeRecv,
		MessageID:            messageID,
		UncompressedByteSize: uncompressedByteSize,
		CompressedByteSize:   compressedByteSize,
	})
	s.mu.Unlock()
''','''	s.addMessageEvent(MessageEventTypeRecv, messageID, uncompressedByteSize, compressedByteSize)
'''))
r('trace/annot-helper',(T,'''	var am map[string]interface{}
	if len(attributes) != 0 {
		am = make(map[string]interface{}, len(attributes))
		for _, attr := range attributes {
			am[attr.key] = attr.value
		}
	}
	s.mu.Lock()
''','''	am := attributeMap(attributes)
	s.mu.Lock()
'''),(T,'''// Annotate adds an annotation with attributes.
''','''func attributeMap(attributes []Attribute) map[string]interface{} {
	if len(attributes) == 0 {
		return nil
	}
	am := make(map[string]interface{}, len(attributes))
	for i := range attributes {
		am[attributes[i].key] = attributes[i].value
	}
	return am
}

// Annotate adds an annotation with attributes.
'''))
r('trace/copycapped-inline',(T,'''	s.mu.Lock()
	s.copyToCappedAttributes(attributes)
	s.mu.Unlock()
''','''	s.mu.Lock()
	for i := 0; i < len(attributes); i++ {
		a := &attributes[i]
		s.lruAttributes.add(a.key, a.value)
	}
	s.mu.Unlock()
'''),(T,'''func (s *span) copyToCappedAttributes(attributes []Attribute) {
	for _, a := range attributes {
		s.lruAttributes.add(a.key, a.value)
	}
}

''',''))
r('trace/start-shared',(T,'''	span := startSpanInternal(name, parent != SpanContext{}, parent, false, opts)

	ctx, end := startExecutionTracerTask(ctx, name)
	span.executionTracerTaskEnd = end
	extSpan := NewSpan(span)
	return t.NewContext(ctx, extSpan), extSpan
}
''','''	return t.start(ctx, name, parent, false, opts)
}

func (t *tracer) start(ctx context.Context, name string, parent SpanContext, remote bool, opts StartOptions) (context.Context, *Span) {
	hasParent := parent != SpanContext{}
	s := startSpanInternal(name, hasParent, parent, remote, opts)
	ctx, s.executionTracerTaskEnd = startExecutionTracerTask(ctx, name)
	ext := NewSpan(s)
	return t.NewContext(ctx, ext), ext
}
'''),(T,'''	var opts StartOptions
	for _, op := range o {
		op(&opts)
	}
	span := startSpanInternal(name, parent != SpanContext{}, parent, true, opts)
	ctx, end := startExecutionTracerTask(ctx, name)
	span.executionTracerTaskEnd = end
	extSpan := NewSpan(span)
	return t.NewContext(ctx, extSpan), extSpan
''','''	return t.start(ctx, name, parent, true, startOptions(o))
'''),(T,'''	for _, op := range o {
		op(&opts)
	}
''','''	opts = startOptions(o)
'''),(T,'''func startSpanInternal(''','''func startOptions(o []StartOption) StartOptions {
	var opts StartOptions
	for i := range o {
		o[i](&opts)
	}
	return opts
}

func startSpanInternal('''))
r('trace/sampler-helper',(T,'''	sampler := cfg.DefaultSampler

	if !hasParent || remoteParent || o.Sampler != nil {
''','''	sampler := o.Sampler
	if sampler == nil && (!hasParent || remoteParent) {
		sampler = cfg.DefaultSampler
	}
	if sampler != nil {
'''),(T,'''		if o.Sampler != nil {
			sampler = o.Sampler
		}
		s.spanContext''','''		s.spanContext''')) if 0 else None
r('trace/sampler-switch',(T,'''	sampler := cfg.DefaultSampler

	if !hasParent || remoteParent || o.Sampler != nil {
''','''	consult := true
	switch {
	case o.Sampler != nil:
	case !hasParent:
	case remoteParent:
	default:
		consult = false
	}
	if consult {
'''),(T,'''		if o.Sampler != nil {
			sampler = o.Sampler
		}
		s.spanContext.setIsSampled(sampler(SamplingParameters{
			ParentContext:   parent,
			TraceID:         s.spanContext.TraceID,
			SpanID:          s.spanContext.SpanID,
			Name:            name,
			HasRemoteParent: remoteParent}).Sample)
''','''		sampler := o.Sampler
		if sampler == nil {
			sampler = cfg.DefaultSampler
		}
		params := SamplingParameters{ParentContext: parent, Name: name, HasRemoteParent: remoteParent}
		params.TraceID, params.SpanID = s.spanContext.TraceID, s.spanContext.SpanID
		decision := sampler(params)
		s.spanContext.setIsSampled(decision.Sample)
'''))
r('trace/start-record-helper',(T,'''	if !internal.LocalSpanStoreEnabled && !s.spanContext.IsSampled() {
		return s
	}

	s.data = &SpanData{''','''	if internal.LocalSpanStoreEnabled || s.spanContext.IsSampled() {
		s.startRecording(cfg, name, hasParent, parent, remoteParent, o)
	}
	return s
}

func (s *span) startRecording(cfg *Config, name string, hasParent bool, parent SpanContext, remoteParent bool, o StartOptions) {
	s.links = newEvictedQueue(cfg.MaxLinksPerSpan)
	s.data = &SpanData{'''),(T,'''	s.messageEvents = newEvictedQueue(cfg.MaxMessageEventsPerSpan)
	s.links = newEvictedQueue(cfg.MaxLinksPerSpan)
''','''	s.messageEvents = newEvictedQueue(cfg.MaxMessageEventsPerSpan)
'''),(T,'''		var ss *spanStore
		ss = spanStoreForNameCreateIfNew(name)
		if ss != nil {
			s.spanStore = ss
			ss.add(s)
		}
	}

	return s
}
''','''		if ss := spanStoreForNameCreateIfNew(name); ss != nil {
			s.spanStore = ss
			ss.add(s)
		}
	}
}
'''))
r('trace/start-parentid',(T,'''	if hasParent {
		s.data.ParentSpanID = parent.SpanID
	}
''',''),(T,'''		HasRemoteParent: remoteParent,
	}
	s.lru''','''		HasRemoteParent: remoteParent,
		ParentSpanID:    parentID,
	}
	s.lru'''),(T,'''	s.data = &SpanData{''','''	var parentID SpanID
	if hasParent {
		parentID = parent.SpanID
	}
	s.data = &SpanData{'''))
r('trace/idgen-do',(T,'''	var id uint64
	for id == 0 {
		id = atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)
	}
	var sid [8]byte
''','''	id := atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)
	for id == 0 {
		id = atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)
	}
	var sid [8]byte
'''),(T,'''	gen.Lock()
	for tid == ([16]byte{}) {
		binary.LittleEndian.PutUint64(tid[0:8], gen.traceIDRand.Uint64()+gen.traceIDAdd[0])
		binary.LittleEndian.PutUint64(tid[8:16], gen.traceIDRand.Uint64()+gen.traceIDAdd[1])
	}
	gen.Unlock()
	return tid''','''	gen.Lock()
	defer gen.Unlock()
	for {
		hi := gen.traceIDRand.Uint64() + gen.traceIDAdd[0]
		lo := gen.traceIDRand.Uint64() + gen.traceIDAdd[1]
		binary.LittleEndian.PutUint64(tid[:8], hi)
		binary.LittleEndian.PutUint64(tid[8:], lo)
		if tid != ([16]byte{}) {
			return tid
		}
	}'''))
r('trace/idgen-init',(T,'''		for _, p := range []interface{}{
			&rngSeed, &gen.traceIDAdd, &gen.nextSpanID, &gen.spanIDInc,
		} {
			binary.Read(crand.Reader, binary.LittleEndian, p)
		}
''','''		readRandom := func(p interface{}) {
			binary.Read(crand.Reader, binary.LittleEndian, p)
		}
		readRandom(&rngSeed)
		readRandom(&gen.traceIDAdd)
		readRandom(&gen.nextSpanID)
		readRandom(&gen.spanIDInc)
'''))
r('trace/string-switch',(T,'''	if s == nil {
		return "<nil>"
	}
	if s.data == nil {
		return fmt.Sprintf("span %s", s.spanContext.SpanID)
	}
	s.mu.Lock()
	str := fmt.Sprintf("span %s %q", s.spanContext.SpanID, s.data.Name)
	s.mu.Unlock()
	return str
''','''	switch {
	case s == nil:
		return "<nil>"
	case s.data == nil:
		return fmt.Sprintf("span %s", s.spanContext.SpanID)
	}
	s.mu.Lock()
	name := s.data.Name
	s.mu.Unlock()
	return fmt.Sprintf("span %s %q", s.spanContext.SpanID, name)
'''))
SS='trace/spanstore.go'
r('store/collect-helper',(SS,'''	if code != 0 {
		if b, ok := s.errors[code]; ok {
			for _, sd := range b.buffer {
				if sd == nil {
					break
				}
				out = append(out, sd)
			}
		}
	} else {
		for _, b := range s.errors {
			for _, sd := range b.buffer {
				if sd == nil {
					break
				}
				out = append(out, sd)
			}
		}
	}
	return out
''','''	for c, b := range s.errors {
		if code != 0 && c != code {
			continue
		}
		for _, sd := range b.buffer {
			if sd == nil {
				break
			}
			out = append(out, sd)
		}
	}
	return out
'''))
r('store/collect-method',(SS,'''		if b, ok := s.errors[code]; ok {
			for _, sd := range b.buffer {
				if sd == nil {
					break
				}
				out = append(out, sd)
			}
		}
	} else {
		for _, b := range s.errors {
			for _, sd := range b.buffer {
				if sd == nil {
					break
				}
				out = append(out, sd)
			}
		}
	}
''','''		if b, ok := s.errors[code]; ok {
			out = b.appendTo(out)
		}
	} else {
		for _, b := range s.errors {
			out = b.appendTo(out)
		}
	}
'''),('trace/spanbucket.go','''// span returns the''','''// appendTo appends the spans in the bucket to out.
func (b *bucket) appendTo(out []*SpanData) []*SpanData {
	for i := 0; i < len(b.buffer); i++ {
		if b.buffer[i] == nil {
			break
		}
		out = append(out, b.buffer[i])
	}
	return out
}

// span returns the'''))
r('store/clamp',(SS,'''		latencyBucketSize := bc.MaxRequestsSucceeded
		if latencyBucketSize < 0 {
			latencyBucketSize = 0
		}
		if latencyBucketSize > maxBucketSize {
			latencyBucketSize = maxBucketSize
		}
		errorBucketSize := bc.MaxRequestsErrors
		if errorBucketSize < 0 {
			errorBucketSize = 0
		}
		if errorBucketSize > maxBucketSize {
			errorBucketSize = maxBucketSize
		}
		spanStoreSetSize(bc.Name, latencyBucketSize, errorBucketSize)
	}
}
''','''		spanStoreSetSize(bc.Name, clampBucketSize(bc.MaxRequestsSucceeded), clampBucketSize(bc.MaxRequestsErrors))
	}
}

func clampBucketSize(n int) int {
	switch {
	case n < 0:
		return 0
	case n > maxBucketSize:
		return maxBucketSize
	default:
		return n
	}
}
'''))
r('store/permethod-helper',(SS,'''		s.mu.Lock()
		p := internal.PerMethodSummary{
			Active: len(s.active),
		}
		for code, b := range s.errors {
			p.ErrorBuckets = append(p.ErrorBuckets, internal.ErrorBucketSummary{
				ErrorCode: code,
				Size:      b.size(),
			})
		}
		for i, b := range s.latency {
			min, max := latencyBucketBounds(i)
			p.LatencyBuckets = append(p.LatencyBuckets, internal.LatencyBucketSummary{
				MinLatency: min,
				MaxLatency: max,
				Size:       b.size(),
			})
		}
		s.mu.Unlock()
		out[name] = p
	}
	return out
}
''','''		out[name] = s.summary()
	}
	return out
}

func (s *spanStore) summary() internal.PerMethodSummary {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := internal.PerMethodSummary{
		Active:         len(s.active),
		LatencyBuckets: make([]internal.LatencyBucketSummary, len(s.latency)),
	}
	for i := range s.latency {
		lb := &p.LatencyBuckets[i]
		lb.MinLatency, lb.MaxLatency = latencyBucketBounds(i)
		lb.Size = s.latency[i].size()
	}
	for code, b := range s.errors {
		e := internal.ErrorBucketSummary{ErrorCode: code, Size: b.size()}
		p.ErrorBuckets = append(p.ErrorBuckets, e)
	}
	return p
}
'''))
r('store/latency-helper',(SS,'''			if minLatency != 0 || maxLatency != 0 {
				d := sd.EndTime.Sub(sd.StartTime)
				if d < minLatency {
					continue
				}
				if maxLatency != 0 && d > maxLatency {
					continue
				}
			}
			out = append(out, sd)
''','''			d := sd.EndTime.Sub(sd.StartTime)
			unbounded := minLatency == 0 && maxLatency == 0
			if unbounded || (d >= minLatency && (maxLatency == 0 || d <= maxLatency)) {
				out = append(out, sd)
			}
'''))
r('store/getorcreate',(SS,'''	s, ok = spanStores[name]
	if ok {
		return s
	}
	s = newSpanStore(name, defaultBucketSize, defaultBucketSize)
	spanStores[name] = s
	return s
''','''	if s, ok = spanStores[name]; !ok {
		s = newSpanStore(name, defaultBucketSize, defaultBucketSize)
		spanStores[name] = s
	}
	return s
'''),(SS,'''	var s *spanStore
	ssmu.RLock()
	s, _ = spanStores[name]
	ssmu.RUnlock()
	return s
''','''	ssmu.RLock()
	defer ssmu.RUnlock()
	return spanStores[name]
'''))
r('store/setsize-simple',(SS,'''	ssmu.RLock()
	s, ok := spanStores[name]
	ssmu.RUnlock()
	if ok {
		s.resize(latencyBucketSize, errorBucketSize)
		return
	}
	ssmu.Lock()
	defer ssmu.Unlock()
	s, ok = spanStores[name]
	if ok {
		s.resize(latencyBucketSize, errorBucketSize)
		return
	}
	s = newSpanStore(name, latencyBucketSize, errorBucketSize)
	spanStores[name] = s
''','''	if s := spanStoreForName(name); s != nil {
		s.resize(latencyBucketSize, errorBucketSize)
		return
	}
	ssmu.Lock()
	defer ssmu.Unlock()
	if s := spanStores[name]; s != nil {
		s.resize(latencyBucketSize, errorBucketSize)
	} else {
		spanStores[name] = newSpanStore(name, latencyBucketSize, errorBucketSize)
	}
'''))
r('store/finished-restruct',(SS,'''	if code == 0 {
		s.latency[latencyBucket(latency)].add(sd)
	} else {
		if s.errors == nil {
			s.errors = make(map[int32]*bucket)
		}
		if b := s.errors[code]; b != nil {
			b.add(sd)
		} else {
			b := makeBucket(s.maxSpansPerErrorBucket)
			s.errors[code] = &b
			b.add(sd)
		}
	}
	s.mu.Unlock()
}
''','''	s.bucketFor(code, latency).add(sd)
	s.mu.Unlock()
}

// bucketFor returns the bucket for a finished span. s.mu must be held.
func (s *spanStore) bucketFor(code int32, latency time.Duration) *bucket {
	if code == 0 {
		return &s.latency[latencyBucket(latency)]
	}
	if s.errors == nil {
		s.errors = make(map[int32]*bucket)
	}
	b := s.errors[code]
	if b == nil {
		nb := makeBucket(s.maxSpansPerErrorBucket)
		b = &nb
		s.errors[code] = b
	}
	return b
}
'''))
SB='trace/spanbucket.go'
r('bucket/add',(SB,'''	if s.EndTime.Before(b.nextTime) {
		return
	}
	if len(b.buffer) == 0 {
		return
	}
''','''	if len(b.buffer) == 0 || s.EndTime.Before(b.nextTime) {
		return
	}
'''),(SB,'''	b.nextIndex++
	if b.nextIndex == len(b.buffer) {
		b.nextIndex = 0
		b.overflow = true
	}
''','''	if next := b.nextIndex + 1; next < len(b.buffer) {
		b.nextIndex = next
	} else {
		b.nextIndex = 0
		b.overflow = true
	}
'''))
r('bucket/span',(SB,'''	if !b.overflow {
		return b.buffer[i]
	}
	if i < len(b.buffer)-b.nextIndex {
		return b.buffer[b.nextIndex+i]
	}
	return b.buffer[b.nextIndex+i-len(b.buffer)]
''','''	if b.overflow {
		i += b.nextIndex
		if i >= len(b.buffer) {
			i -= len(b.buffer)
		}
	}
	return b.buffer[i]
'''))
r('bucket/resize',(SB,'''	if cur < n {
		for i := 0; i < cur; i++ {
			newBuffer[i] = b.span(i)
		}
		b.buffer = newBuffer
		b.nextIndex = cur
		b.overflow = false
		return
	}
	for i := 0; i < n; i++ {
		newBuffer[i] = b.span(i + cur - n)
	}
	b.buffer = newBuffer
	b.nextIndex = 0
	b.overflow = true
''','''	if cur >= n {
		for i := range newBuffer {
			newBuffer[i] = b.span(cur - n + i)
		}
		b.nextIndex, b.overflow = 0, true
	} else {
		for i := 0; i < cur; i++ {
			newBuffer[i] = b.span(i)
		}
		b.nextIndex, b.overflow = cur, false
	}
	b.buffer = newBuffer
'''))
r('bucket/latency-for',(SB,'''	i := 0
	for i < len(defaultLatencies) && latency >= defaultLatencies[i] {
		i++
	}
	return i
''','''	for i, bound := range defaultLatencies {
		if latency < bound {
			return i
		}
	}
	return len(defaultLatencies)
'''),(SB,'''	if index == 0 {
		return 0, defaultLatencies[index]
	}
	if index == len(defaultLatencies) {
		return defaultLatencies[index-1], 1<<63 - 1
	}
	return defaultLatencies[index-1], defaultLatencies[index]
''','''	upper = 1<<63 - 1
	if index > 0 {
		lower = defaultLatencies[index-1]
	}
	if index < len(defaultLatencies) {
		upper = defaultLatencies[index]
	}
	return lower, upper
'''))
r('queue/add-order',('trace/evictedqueue.go','''	if len(eq.queue) == eq.capacity {
		eq.queue = eq.queue[1:]
		eq.droppedCount++
	}
	eq.queue = append(eq.queue, value)''','''	if len(eq.queue) != eq.capacity {
		eq.queue = append(eq.queue, value)
		return
	}
	eq.droppedCount++
	eq.queue = append(eq.queue[1:], value)'''))
r('queue/new',('trace/evictedqueue.go','''	eq := &evictedQueue{
		capacity: capacity,
		queue:    make([]interface{}, 0),
	}

	return eq''','''	return &evictedQueue{capacity: capacity, queue: []interface{}{}}'''))
r('queue/shift-helper',('trace/evictedqueue.go','''		eq.queue = eq.queue[1:]
		eq.droppedCount++
	}
	eq.queue = append(eq.queue, value)
}''','''		eq.evict()
	}
	eq.queue = append(eq.queue, value)
}

func (eq *evictedQueue) evict() {
	eq.queue = eq.queue[1:]
	eq.droppedCount++
}'''))
r('config/helper',('trace/config.go','''	if cfg.MaxAnnotationEventsPerSpan > 0 {
		c.MaxAnnotationEventsPerSpan = cfg.MaxAnnotationEventsPerSpan
	}
	if cfg.MaxMessageEventsPerSpan > 0 {
		c.MaxMessageEventsPerSpan = cfg.MaxMessageEventsPerSpan
	}
	if cfg.MaxAttributesPerSpan > 0 {
		c.MaxAttributesPerSpan = cfg.MaxAttributesPerSpan
	}
	if cfg.MaxLinksPerSpan > 0 {
		c.MaxLinksPerSpan = cfg.MaxLinksPerSpan
	}
	config.Store(&c)
}''','''	setIfPositive(&c.MaxAnnotationEventsPerSpan, cfg.MaxAnnotationEventsPerSpan)
	setIfPositive(&c.MaxMessageEventsPerSpan, cfg.MaxMessageEventsPerSpan)
	setIfPositive(&c.MaxAttributesPerSpan, cfg.MaxAttributesPerSpan)
	setIfPositive(&c.MaxLinksPerSpan, cfg.MaxLinksPerSpan)
	config.Store(&c)
}

func setIfPositive(p *int, n int) {
	if n > 0 {
		*p = n
	}
}'''))
r('config/copy',('trace/config.go','''	c := *config.Load().(*Config)
	if''','''	old := config.Load().(*Config)
	c := new(Config)
	*c = *old
	if'''),('trace/config.go','''config.Store(&c)''','config.Store(c)'))
r('config/merge',('trace/config.go','''	c := *config.Load().(*Config)
	if cfg.DefaultSampler != nil {
		c.DefaultSampler = cfg.DefaultSampler
	}
''','''	c := *config.Load().(*Config)
	c.apply(cfg)
	config.Store(&c)
}

func (c *Config) apply(cfg Config) {
	if cfg.DefaultSampler != nil {
		c.DefaultSampler = cfg.DefaultSampler
	}
'''),('trace/config.go','''		c.MaxLinksPerSpan = cfg.MaxLinksPerSpan
	}
	config.Store(&c)
''','''		c.MaxLinksPerSpan = cfg.MaxLinksPerSpan
	}
'''))
r('export/copy-helper',('trace/export.go','''	exporterMu.Lock()
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	new[e] = struct{}{}
	exporters.Store(new)
	exporterMu.Unlock()
}
''','''	updateExporters(func(m exportersMap) { m[e] = struct{}{} })
}

// updateExporters publishes a changed copy of the set of exporters.
func updateExporters(change func(exportersMap)) {
	exporterMu.Lock()
	defer exporterMu.Unlock()
	old, _ := exporters.Load().(exportersMap)
	next := make(exportersMap, len(old)+1)
	for k := range old {
		next[k] = struct{}{}
	}
	change(next)
	exporters.Store(next)
}
'''),('trace/export.go','''	exporterMu.Lock()
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	delete(new, e)
	exporters.Store(new)
	exporterMu.Unlock()
''','''	updateExporters(func(m exportersMap) { delete(m, e) })
'''))
r('export/unregister-skip',('trace/export.go','''		for k, v := range old {
			new[k] = v
		}
	}
	delete(new, e)
''','''		for k, v := range old {
			if k == e {
				continue
			}
			new[k] = v
		}
	}
'''))
r('export/copyfn',('trace/export.go','''	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	new[e] = struct{}{}
	exporters.Store(new)
	exporterMu.Unlock()
}
''','''	m := copyExporters()
	m[e] = struct{}{}
	exporters.Store(m)
	exporterMu.Unlock()
}

func copyExporters() exportersMap {
	m := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			m[k] = v
		}
	}
	return m
}
'''),('trace/export.go','''	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	delete(new, e)
	exporters.Store(new)
''','''	m := copyExporters()
	delete(m, e)
	exporters.Store(m)
'''))
r('sampling/clamp',('trace/sampling.go','''	if !(fraction >= 0) {
		fraction = 0
	} else if fraction >= 1 {
		return AlwaysSample()
	}
''','''	if fraction >= 1 {
		return AlwaysSample()
	}
	if !(fraction >= 0) {
		fraction = 0
	}
'''))
r('api/setname-nil',('trace/trace_api.go','''func (s *Span) SetName(name string) {
	if !s.IsRecordingEvents() {
		return
	}
	s.internal.SetName(name)
''','''func (s *Span) SetName(name string) {
	if s.IsRecordingEvents() {
		s.internal.SetName(name)
	}
'''),('trace/trace_api.go','''	if s == nil {
		return false
	}
	return s.internal.IsRecordingEvents()
''','''	return s != nil && s.internal.IsRecordingEvents()
'''))
r('api/fromctx',(T,'''	s, _ := ctx.Value(contextKey{}).(*Span)
	return s
''','''	if s, ok := ctx.Value(contextKey{}).(*Span); ok {
		return s
	}
	return nil
'''))
P='trace/propagation/propagation.go'
r('binary/append',(P,'''	var b [29]byte
	copy(b[2:18], sc.TraceID[:])
	b[18] = 1
	copy(b[19:27], sc.SpanID[:])
	b[27] = 2
	b[28] = uint8(sc.TraceOptions)
	return b[:]
''','''	b := make([]byte, 29)
	b[18], b[27] = 1, 2
	copy(b[2:], sc.TraceID[:])
	copy(b[19:], sc.SpanID[:])
	b[28] = uint8(sc.TraceOptions)
	return b
'''))
r('binary/append2',(P,'''	var b [29]byte
	copy(b[2:18], sc.TraceID[:])
	b[18] = 1
	copy(b[19:27], sc.SpanID[:])
	b[27] = 2
	b[28] = uint8(sc.TraceOptions)
	return b[:]
''','''	b := make([]byte, 0, 29)
	b = append(b, 0, 0)
	b = append(b, sc.TraceID[:]...)
	b = append(b, 1)
	b = append(b, sc.SpanID[:]...)
	b = append(b, 2, uint8(sc.TraceOptions))
	return b
'''))
r('binary/early',(P,'''	b = b[1:]
	if len(b) >= 17 && b[0] == 0 {
		copy(sc.TraceID[:], b[1:17])
		b = b[17:]
	} else {
		return trace.SpanContext{}, false
	}
''','''	b = b[1:]
	if len(b) < 17 || b[0] != 0 {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], b[1:17])
	b = b[17:]
'''))
r('binary/field-helper',(P,'''	if len(b) >= 9 && b[0] == 1 {
		copy(sc.SpanID[:], b[1:9])
		b = b[9:]
	}
	if len(b) >= 2 && b[0] == 2 {
		sc.TraceOptions = trace.TraceOptions(b[1])
	}
	return sc, true
}
''','''	if hasField(b, 1, len(sc.SpanID)) {
		n := copy(sc.SpanID[:], b[1:])
		b = b[1+n:]
	}
	if hasField(b, 2, 1) {
		sc.TraceOptions = trace.TraceOptions(b[1])
	}
	return sc, true
}

func hasField(b []byte, id byte, n int) bool {
	return len(b) > n && b[0] == id
}
'''))
S='exporter/stackdriver/propagation/http.go'
r('sd/parts',(S,'''	slash := strings.Index(h, `/`)
	if slash == -1 {
		return trace.SpanContext{}, false
	}
	tid, h := h[:slash], h[slash+1:]

	buf, err := hex.DecodeString(tid)
	if err != nil || len(buf) != len(sc.TraceID) {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], buf)
''','''	slash := strings.IndexByte(h, '/')
	if slash < 0 {
		return trace.SpanContext{}, false
	}
	buf, err := hex.DecodeString(h[:slash])
	if err != nil || len(buf) != 16 {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], buf)
	h = h[slash+1:]
'''))
r('sd/options-helper',(S,'''	if !strings.HasPrefix(h, "o=") {
		return sc, true
	}
	o, err := strconv.ParseUint(h[2:], 10, 32)
	if err != nil {
		return trace.SpanContext{}, false
	}
	sc.TraceOptions = trace.TraceOptions(o)
	return sc, true
}
''','''	if strings.HasPrefix(h, "o=") {
		o, err := strconv.ParseUint(h[len("o="):], 10, 32)
		if err != nil {
			return trace.SpanContext{}, false
		}
		sc.TraceOptions = trace.TraceOptions(o)
	}
	return sc, true
}
'''))
r('sd/encode',(S,'''	sid := binary.BigEndian.Uint64(sc.SpanID[:])
	header := fmt.Sprintf("%s/%d;o=%d", hex.EncodeToString(sc.TraceID[:]), sid, int64(sc.TraceOptions))
	req.Header.Set(httpHeader, header)
''','''	header := fmt.Sprintf("%x/%d;o=%d", sc.TraceID[:], binary.BigEndian.Uint64(sc.SpanID[:]), sc.TraceOptions)
	req.Header.Set(httpHeader, header)
'''))
B='plugin/ochttp/propagation/b3/b3.go'
r('b3/pad',(B,'''	if len(b) <= 8 {
		// The lower 64-bits.
		start := 8 + (8 - len(b))
		copy(traceID[start:], b)
	} else {
		start := 16 - len(b)
		copy(traceID[start:], b)
	}

	return traceID, true
''','''	copy(traceID[len(traceID)-len(b):], b)
	return traceID, true
'''))
r('b3/sampled',(B,'''	switch sampled {
	case "true", "1":
		return trace.TraceOptions(1), true
	default:
		return trace.TraceOptions(0), false
	}
''','''	if sampled == "true" || sampled == "1" {
		return 1, true
	}
	return 0, false
'''),(B,'''	var sampled string
	if sc.IsSampled() {
		sampled = "1"
	} else {
		sampled = "0"
	}
	req.Header.Set(SampledHeader, sampled)
''','''	sampled := "0"
	if sc.IsSampled() {
		sampled = "1"
	}
	req.Header.Set(SampledHeader, sampled)
'''))
r('b3/request',(B,'''	sampled, _ := ParseSampled(req.Header.Get(SampledHeader))
	return trace.SpanContext{
		TraceID:      tid,
		SpanID:       sid,
		TraceOptions: sampled,
	}, true
''','''	sc.TraceID, sc.SpanID = tid, sid
	sc.TraceOptions, _ = ParseSampled(req.Header.Get(SampledHeader))
	return sc, true
'''))
r('b3/hexhelper',(B,'''	if sid == "" {
		return trace.SpanID{}, false
	}
	b, err := hex.DecodeString(sid)
	if err != nil || len(b) > 8 {
		return trace.SpanID{}, false
	}
	start := 8 - len(b)
	copy(spanID[start:], b)
	return spanID, true
}
''','''	b, ok := decodeHex(sid, len(spanID))
	if !ok {
		return spanID, false
	}
	copy(spanID[len(spanID)-len(b):], b)
	return spanID, true
}

// decodeHex decodes a non-empty string of at most max hex bytes.
func decodeHex(s string, max int) ([]byte, bool) {
	if s == "" {
		return nil, false
	}
	b, err := hex.DecodeString(s)
	if err != nil || len(b) > max {
		return nil, false
	}
	return b, true
}
'''))
W='plugin/ochttp/propagation/tracecontext/propagation.go'
r('w3c/field-helper',(W,'''	if len(sections[1]) != 32 {
		return trace.SpanContext{}, false
	}
	tid, err := hex.DecodeString(sections[1])
	if err != nil {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], tid)

	if len(sections[2]) != 16 {
		return trace.SpanContext{}, false
	}
	sid, err := hex.DecodeString(sections[2])
	if err != nil {
		return trace.SpanContext{}, false
	}
	copy(sc.SpanID[:], sid)

	if len(sections[3]) != 2 {
		return trace.SpanContext{}, false
	}
	opts, err := hex.DecodeString(sections[3])
	if err != nil {
		return trace.SpanContext{}, false
	}
	sc.TraceOptions = trace.TraceOptions(opts[0])
''','''	tid, ok := decodeField(sections[1], len(sc.TraceID))
	if !ok {
		return trace.SpanContext{}, false
	}
	sid, ok := decodeField(sections[2], len(sc.SpanID))
	if !ok {
		return trace.SpanContext{}, false
	}
	opts, ok := decodeField(sections[3], 1)
	if !ok {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], tid)
	copy(sc.SpanID[:], sid)
	sc.TraceOptions = trace.TraceOptions(opts[0])
'''),(W,'''// getRequestHeader returns''','''// decodeField decodes a field of exactly n hex bytes.
func decodeField(s string, n int) ([]byte, bool) {
	if len(s) != 2*n {
		return nil, false
	}
	b, err := hex.DecodeString(s)
	return b, err == nil
}

// getRequestHeader returns'''))
r('w3c/hexdecode-into',(W,'''	tid, err := hex.DecodeString(sections[1])
	if err != nil {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], tid)
''','''	if _, err := hex.Decode(sc.TraceID[:], []byte(sections[1])); err != nil {
		return trace.SpanContext{}, false
	}
'''))
r('w3c/lower-loop',(W,'''	for _, section := range sections[:4] {
		if strings.ToLower(section) != section {
			return trace.SpanContext{}, false
		}
	}
''','''	for i := 0; i < 4; i++ {
		if s := sections[i]; s != strings.ToLower(s) {
			return trace.SpanContext{}, false
		}
	}
'''))
r('w3c/version',(W,'''	version := int(ver[0])
	if version > maxVersion {
		return trace.SpanContext{}, false
	}

	if version == 0 && len(sections) != 4 {
		return trace.SpanContext{}, false
	}
''','''	switch version := ver[0]; {
	case version > maxVersion, version == 0 && len(sections) > 4:
		return trace.SpanContext{}, false
	}
'''))
r('w3c/zero',(W,'''	if sc.TraceID == [16]byte{} || sc.SpanID == [8]byte{} {
		return trace.SpanContext{}, false
	}
''','''	if isZero(sc) {
		return trace.SpanContext{}, false
	}
'''),(W,'''// getRequestHeader returns''','''func isZero(sc trace.SpanContext) bool {
	var (
		noTrace trace.TraceID
		noSpan  trace.SpanID
	)
	return sc.TraceID == noTrace || sc.SpanID == noSpan
}

// getRequestHeader returns'''))
r('w3c/tostate',(W,'''	var pairs = make([]string, 0, len(sc.Tracestate.Entries()))
	if sc.Tracestate != nil {
		for _, entry := range sc.Tracestate.Entries() {
			pairs = append(pairs, strings.Join([]string{entry.Key, entry.Value}, "="))
		}
		h := strings.Join(pairs, ",")

		if h != "" && len(h) <= maxTracestateLen {
			return h
		}
	}
	return ""
''','''	if sc.Tracestate == nil {
		return ""
	}
	entries := sc.Tracestate.Entries()
	pairs := make([]string, len(entries))
	for i, e := range entries {
		pairs[i] = e.Key + "=" + e.Value
	}
	h := strings.Join(pairs, ",")
	if len(h) > maxTracestateLen {
		return ""
	}
	return h
'''))
r('w3c/tostate-builder',(W,'''	var pairs = make([]string, 0, len(sc.Tracestate.Entries()))
	if sc.Tracestate != nil {
		for _, entry := range sc.Tracestate.Entries() {
			pairs = append(pairs, strings.Join([]string{entry.Key, entry.Value}, "="))
		}
		h := strings.Join(pairs, ",")

		if h != "" && len(h) <= maxTracestateLen {
			return h
		}
	}
	return ""
''','''	var pairs []string
	for _, entry := range sc.Tracestate.Entries() {
		pairs = append(pairs, entry.Key+"="+entry.Value)
	}
	if h := strings.Join(pairs, ","); len(h) <= maxTracestateLen {
		return h
	}
	return ""
'''))
r('w3c/fromstate',(W,'''		pair = matches[1]
		hdrLenWithoutOWS += len(pair)
		if hdrLenWithoutOWS > maxTracestateLen {
			return nil
		}
		kv := strings.Split(pair, "=")
		if len(kv) != 2 {
			return nil
		}
		entries = append(entries, tracestate.Entry{Key: kv[0], Value: kv[1]})
	}
''','''		trimmed := matches[1]
		if hdrLenWithoutOWS += len(trimmed); hdrLenWithoutOWS > maxTracestateLen {
			return nil
		}
		entry, ok := parsePair(trimmed)
		if !ok {
			return nil
		}
		entries = append(entries, entry)
	}
'''),(W,'''func tracestateToHeader''','''func parsePair(s string) (e tracestate.Entry, ok bool) {
	kv := strings.Split(s, "=")
	if len(kv) != 2 {
		return e, false
	}
	e.Key, e.Value = kv[0], kv[1]
	return e, true
}

func tracestateToHeader'''))
r('w3c/header',(W,'''	switch len(v) {
	case 0:
		return "", false
	case 1:
		return v[0], true
	default:
		return strings.Join(v, ","), commaSeparated
	}
''','''	if len(v) == 0 {
		return "", false
	}
	if len(v) == 1 {
		return v[0], true
	}
	return strings.Join(v, ","), commaSeparated
'''))
r('w3c/encode',(W,'''	tp = fmt.Sprintf("%x-%x-%x-%x",
		[]byte{supportedVersion},
		sc.TraceID[:],
		sc.SpanID[:],
		[]byte{byte(sc.TraceOptions)})
	ts = tracestateToHeader(sc)
	return
''','''	opts := byte(sc.TraceOptions)
	tp = fmt.Sprintf("%02x-%s-%s-%02x", supportedVersion, sc.TraceID, sc.SpanID, opts)
	return tp, tracestateToHeader(sc)
'''))
TS='trace/tracestate/tracestate.go'
r('ts/remove',(TS,'''func (ts *Tracestate) remove(key string) *Entry {
	for index, entry := range ts.entries {
		if entry.Key == key {
			ts.entries = append(ts.entries[:index], ts.entries[index+1:]...)
			return &entry
		}
	}
	return nil
}
''','''func (ts *Tracestate) remove(key string) {
	for i := range ts.entries {
		if ts.entries[i].Key != key {
			continue
		}
		ts.entries = append(ts.entries[:i], ts.entries[i+1:]...)
		return
	}
}
'''))
r('ts/add-filter',(TS,'''	for _, entry := range entries {
		ts.remove(entry.Key)
	}
	if len''','''	superseded := make(map[string]bool, len(entries))
	for _, entry := range entries {
		superseded[entry.Key] = true
	}
	kept := make([]Entry, 0, len(ts.entries))
	for _, entry := range ts.entries {
		if !superseded[entry.Key] {
			kept = append(kept, entry)
		}
	}
	ts.entries = kept
	if len'''),(TS,'''func (ts *Tracestate) remove(key string) *Entry {
	for index, entry := range ts.entries {
		if entry.Key == key {
			ts.entries = append(ts.entries[:index], ts.entries[index+1:]...)
			return &entry
		}
	}
	return nil
}

''',''))
r('ts/new',(TS,'''	tracestate := Tracestate{}

	if parent != nil && len(parent.entries) > 0 {
		tracestate.entries = append([]Entry{}, parent.entries...)
	}

	err := tracestate.add(entries)
	if err != nil {
		return nil, err
	}
	return &tracestate, nil
''','''	ts := new(Tracestate)
	if parent != nil {
		ts.entries = make([]Entry, len(parent.entries))
		copy(ts.entries, parent.entries)
	}
	if err := ts.add(entries); err != nil {
		return nil, err
	}
	return ts, nil
'''))
r('ts/new-entries',(TS,'''	if parent != nil && len(parent.entries) > 0 {
		tracestate.entries = append([]Entry{}, parent.entries...)
	}
''','''	tracestate.entries = parent.Entries()
'''))
r('ts/dup-set',(TS,'''	keyMap := make(map[string]int)
	for _, entry := range entries {
		if _, ok := keyMap[entry.Key]; ok {
			return entry.Key, true
		}
		keyMap[entry.Key] = 1
	}
	return "", false
''','''	seen := make(map[string]bool, len(entries))
	for i := range entries {
		k := entries[i].Key
		if seen[k] {
			return k, true
		}
		seen[k] = true
	}
	return "", false
'''),(TS,'''	for _, entry := range entries {
		if !isValid(entry) {
			return &entry, false
		}
	}
	return nil, true
''','''	for i := range entries {
		if !isValid(entries[i]) {
			return &entries[i], false
		}
	}
	return nil, true
'''))

# ---- tag ----
TM='tag/map.go'; TC='tag/map_codec.go'; TV='tag/validate.go'
def mutbody(n,extra=''): return '''			if !checkKeyName(k.name) {
				return nil, errInvalidKeyName
			}
			if !checkValue(v) {
				return nil, errInvalidValue
			}
			m.%s(k, v, createMetadatas(mds...))
			return m, nil
'''%n
r('tag/check-helper',(TM,mutbody('insert'),'''			if err := checkTag(k, v); err != nil {
				return nil, err
			}
			m.insert(k, v, createMetadatas(mds...))
			return m, nil
'''),(TM,mutbody('update'),'''			if err := checkTag(k, v); err != nil {
				return nil, err
			}
			m.update(k, v, createMetadatas(mds...))
			return m, nil
'''),(TM,mutbody('upsert'),'''			if err := checkTag(k, v); err != nil {
				return nil, err
			}
			m.upsert(k, v, createMetadatas(mds...))
			return m, nil
'''),(TM,'func createMetadatas(','''func checkTag(k Key, v string) error {
	if !checkKeyName(k.name) {
		return errInvalidKeyName
	}
	if !checkValue(v) {
		return errInvalidValue
	}
	return nil
}

func createMetadatas('''))
r('tag/setter',(TM,'''	return &mutator{
		fn: func(m *Map) (*Map, error) {
'''+mutbody('insert')+'''		},
	}
''','''	return setter(k, v, mds, (*Map).insert)
'''),(TM,'''	return &mutator{
		fn: func(m *Map) (*Map, error) {
'''+mutbody('update')+'''		},
	}
''','''	return setter(k, v, mds, (*Map).update)
'''),(TM,'''	return &mutator{
		fn: func(m *Map) (*Map, error) {
'''+mutbody('upsert')+'''		},
	}
''','''	return setter(k, v, mds, (*Map).upsert)
'''),(TM,'func createMetadatas(','''func setter(k Key, v string, mds []Metadata, set func(*Map, Key, string, metadatas)) Mutator {
	return &mutator{
		fn: func(m *Map) (*Map, error) {
			if !checkKeyName(k.name) {
				return nil, errInvalidKeyName
			}
			if !checkValue(v) {
				return nil, errInvalidValue
			}
			set(m, k, v, createMetadatas(mds...))
			return m, nil
		},
	}
}

func createMetadatas('''))
r('tag/valid-nested',(TM,mutbody('insert'),'''			switch {
			case !checkKeyName(k.name):
				return nil, errInvalidKeyName
			case !checkValue(v):
				return nil, errInvalidValue
			default:
				m.insert(k, v, createMetadatas(mds...))
			}
			return m, nil
'''))
r('tag/mds-outside',(TM,mutbody('upsert'),'''			if !checkKeyName(k.name) {
				return nil, errInvalidKeyName
			}
			if !checkValue(v) {
				return nil, errInvalidValue
			}
			md := createMetadatas(mds...)
			m.upsert(k, v, md)
			return m, nil
'''))
r('tag/insert-form',(TM,'''	if _, ok := m.m[k]; ok {
		return
	}
	m.m[k] = tagContent{value: v, m: md}
''','''	if _, present := m.m[k]; !present {
		m.upsert(k, v, md)
	}
'''),(TM,'''	if _, ok := m.m[k]; ok {
		m.m[k] = tagContent{value: v, m: md}
	}
''','''	_, present := m.m[k]
	if !present {
		return
	}
	m.upsert(k, v, md)
'''))
r('tag/has',(TM,'''	if _, ok := m.m[k]; ok {
		return
	}
	m.m[k] = tagContent{value: v, m: md}
''','''	if m.has(k) {
		return
	}
	m.m[k] = tagContent{value: v, m: md}
'''),(TM,'''	if _, ok := m.m[k]; ok {
		m.m[k] = tagContent{value: v, m: md}
	}
''','''	if m.has(k) {
		m.m[k] = tagContent{value: v, m: md}
	}
'''),(TM,'func newMap()','''func (m *Map) has(k Key) bool {
	_, ok := m.m[k]
	return ok
}

func newMap()'''))
r('tag/content-fields',(TM,'''func (m *Map) upsert(k Key, v string, md metadatas) {
	m.m[k] = tagContent{value: v, m: md}
''','''func (m *Map) upsert(k Key, v string, md metadatas) {
	var c tagContent
	c.value = v
	c.m = md
	m.m[k] = c
'''))
r('tag/createmd',(TM,'''	var metas metadatas
	if len(mds) > 0 {
		for _, md := range mds {
			if md != nil {
				md(&metas)
			}
		}
	} else {
		WithTTL(TTLUnlimitedPropagation)(&metas)
	}
	return metas

''','''	if len(mds) == 0 {
		return metadatas{ttl: TTLUnlimitedPropagation}
	}
	var metas metadatas
	for i := range mds {
		if mds[i] == nil {
			continue
		}
		mds[i](&metas)
	}
	return metas
'''))
r('tag/new-copy-helper',(TM,'''	m := newMap()
	orig := FromContext(ctx)
	if orig != nil {
		for k, v := range orig.m {
			if !checkKeyName(k.Name()) {
				return ctx, fmt.Errorf("key:%q: %v", k, errInvalidKeyName)
			}
			if !checkValue(v.value) {
				return ctx, fmt.Errorf("key:%q value:%q: %v", k.Name(), v, errInvalidValue)
			}
			m.insert(k, v.value, v.m)
		}
	}
	var err error
	for _, mod := range mutator {
		m, err = mod.Mutate(m)
		if err != nil {
			return ctx, err
		}
	}
	return NewContext(ctx, m), nil
}
''','''	m, err := copyOf(FromContext(ctx))
	if err != nil {
		return ctx, err
	}
	for _, mod := range mutator {
		if m, err = mod.Mutate(m); err != nil {
			return ctx, err
		}
	}
	return NewContext(ctx, m), nil
}

// copyOf returns a new map with the tags of orig, which may be nil.
func copyOf(orig *Map) (*Map, error) {
	m := newMap()
	if orig == nil {
		return m, nil
	}
	for k, v := range orig.m {
		if !checkKeyName(k.Name()) {
			return nil, fmt.Errorf("key:%q: %v", k, errInvalidKeyName)
		}
		if !checkValue(v.value) {
			return nil, fmt.Errorf("key:%q value:%q: %v", k.Name(), v, errInvalidValue)
		}
		m.m[k] = v
	}
	return m, nil
}
'''))
r('tag/new-index',(TM,'''	var err error
	for _, mod := range mutator {
		m, err = mod.Mutate(m)
		if err != nil {
			return ctx, err
		}
	}
	return NewContext(ctx, m), nil
''','''	for i := 0; i < len(mutator); i++ {
		next, err := mutator[i].Mutate(m)
		if err != nil {
			return ctx, err
		}
		m = next
	}
	return NewContext(ctx, m), nil
'''))
r('tag/value-form',(TM,'''	if m == nil {
		return "", false
	}
	v, ok := m.m[k]
	return v.value, ok
''','''	if m != nil {
		if v, ok := m.m[k]; ok {
			return v.value, true
		}
	}
	return "", false
'''))
r('tag/fromcontext',('tag/context.go','''	ts := ctx.Value(mapCtxKey)
	if ts == nil {
		return nil
	}
	return ts.(*Map)
''','''	m, _ := ctx.Value(mapCtxKey).(*Map)
	return m
'''))
r('tag/newkey',('tag/key.go','''	if !checkKeyName(name) {
		return Key{}, errInvalidKeyName
	}
	return Key{name: name}, nil
''','''	if checkKeyName(name) {
		return Key{name: name}, nil
	}
	return Key{}, errInvalidKeyName
'''))
r('tag/validate-bytes',(TV,'''	for _, c := range s {
		if (c < validKeyValueMin) || (c > validKeyValueMax) {
			return false
		}
	}
	return true
''','''	for i := 0; i < len(s); i++ {
		if c := s[i]; c < validKeyValueMin || c > validKeyValueMax {
			return false
		}
	}
	return true
'''))
r('tag/validate-expr',(TV,'''	if len(name) == 0 {
		return false
	}
	if len(name) > maxKeyLength {
		return false
	}
	return isASCII(name)
''','''	return name != "" && checkValue(name)
'''),(TV,'''	if len(v) > maxKeyLength {
		return false
	}
	return isASCII(v)
''','''	return len(v) <= maxKeyLength && isASCII(v)
'''))
r('tag/validate-rune',(TV,'''	for _, c := range s {
		if (c < validKeyValueMin) || (c > validKeyValueMax) {
			return false
		}
	}
	return true
}
''','''	for _, c := range s {
		if !printable(c) {
			return false
		}
	}
	return true
}

func printable(c rune) bool {
	return validKeyValueMin <= c && c <= validKeyValueMax
}
'''))
r('tag/codec-bytes',(TC,'''func (eg *encoderGRPC) writeStringWithVarintLen(s string) {
	length := len(s)

	eg.growIfRequired(binary.MaxVarintLen64 + length)
	eg.writeIdx += binary.PutUvarint(eg.buf[eg.writeIdx:], uint64(length))
	copy(eg.buf[eg.writeIdx:], s)
	eg.writeIdx += length
}
''','''func (eg *encoderGRPC) writeStringWithVarintLen(s string) {
	eg.writeBytesWithVarintLen([]byte(s))
}
'''))
r('tag/codec-copyidx',(TC,'''	eg.writeIdx += binary.PutUvarint(eg.buf[eg.writeIdx:], uint64(length))
	copy(eg.buf[eg.writeIdx:], bytes)
	eg.writeIdx += length
''','''	n := binary.PutUvarint(eg.buf[eg.writeIdx:], uint64(length))
	eg.writeIdx += n
	eg.writeIdx += copy(eg.buf[eg.writeIdx:], bytes)
'''))
r('tag/codec-grow',(TC,'''	if len(eg.buf)-eg.writeIdx < expected {
		tmp := make([]byte, 2*(len(eg.buf)+1)+expected)
		copy(tmp, eg.buf)
		eg.buf = tmp
	}
''','''	if free := len(eg.buf) - eg.writeIdx; free >= expected {
		return
	}
	bigger := make([]byte, 2*(len(eg.buf)+1)+expected)
	copy(bigger, eg.buf)
	eg.buf = bigger
'''))
r('tag/codec-encode',(TC,'''	for k, v := range m.m {
		if v.m.ttl.ttl == valueTTLUnlimitedPropagation {
			eg.writeByte(byte(keyTypeString))
			eg.writeStringWithVarintLen(k.name)
			eg.writeBytesWithVarintLen([]byte(v.value))
		}
	}
''','''	for k, v := range m.m {
		if v.m.ttl != TTLUnlimitedPropagation {
			continue
		}
		eg.writeTagString(k.Name(), v.value)
	}
'''))
r('tag/codec-encode2',(TC,'''		if v.m.ttl.ttl == valueTTLUnlimitedPropagation {
			eg.writeByte(byte(keyTypeString))
			eg.writeStringWithVarintLen(k.name)
			eg.writeBytesWithVarintLen([]byte(v.value))
		}
''','''		if !propagates(v.m) {
			continue
		}
		eg.writeTagString(k.name, v.value)
'''),(TC,'// Decode decodes the given []byte into a tag map.','''// propagates reports whether a tag with the metadata leaves the process.
func propagates(md metadatas) bool { return md.ttl.ttl == valueTTLUnlimitedPropagation }

// Decode decodes the given []byte into a tag map.'''))
r('tag/codec-readtag',(TC,'''		k, err := eg.readBytesWithVarintLen()
		if err != nil {
			return err
		}

		v, err := eg.readBytesWithVarintLen()
		if err != nil {
			return err
		}

		key, err := NewKey(string(k))
		if err != nil {
			return err
		}
		val := string(v)
		if !checkValue(val) {
			return errInvalidValue
		}
		fn(key, val, createMetadatas(WithTTL(TTLUnlimitedPropagation)))
		if err != nil {
			return err
		}
	}
	return nil
}
''','''		key, val, err := eg.readTag()
		if err != nil {
			return err
		}
		fn(key, val, createMetadatas(WithTTL(TTLUnlimitedPropagation)))
	}
	return nil
}

func (eg *encoderGRPC) readTag() (Key, string, error) {
	k, err := eg.readStringWithVarintLen()
	if err != nil {
		return Key{}, "", err
	}
	v, err := eg.readStringWithVarintLen()
	if err != nil {
		return Key{}, "", err
	}
	key, err := NewKey(k)
	if err != nil {
		return Key{}, "", err
	}
	if !checkValue(v) {
		return Key{}, "", errInvalidValue
	}
	return key, v, nil
}
'''))
r('tag/codec-decode-len',(TC,'''	eg := &encoderGRPC{
		buf: bytes,
	}
	if len(eg.buf) == 0 {
		return nil
	}

''','''	if len(bytes) == 0 {
		return nil
	}
	eg := &encoderGRPC{buf: bytes}
'''))
r('tag/codec-read-order',(TC,'''	valueStart += eg.readIdx
	if length > uint64(len(eg.buf)-valueStart) {
		return nil, fmt.Errorf("malformed encoding: length:%v, start:%v, maxLength:%v", length, valueStart, len(eg.buf))
	}
	valueEnd := valueStart + int(length)

	eg.readIdx = valueEnd
	return eg.buf[valueStart:valueEnd], nil
''','''	rest := eg.buf[eg.readIdx+valueStart:]
	if length > uint64(len(rest)) {
		return nil, fmt.Errorf("malformed encoding: length:%v, start:%v, maxLength:%v", length, eg.readIdx+valueStart, len(eg.buf))
	}
	eg.readIdx += valueStart + int(length)
	return rest[:length], nil
'''))
r('tag/decode-form',(TC,'''	ts := newMap()
	err := DecodeEach(bytes, ts.upsert)
	if err != nil {
		// no partial failures
		return nil, err
	}
	return ts, nil
''','''	ts := newMap()
	if err := DecodeEach(bytes, func(k Key, v string, md metadatas) { ts.upsert(k, v, md) }); err != nil {
		return nil, err
	}
	return ts, nil
'''))
r('tag/do-labels',('tag/profile_19.go','''	var keyvals []string
	if m := FromContext(ctx); m != nil {
		keyvals = make([]string, 0, 2*len(m.m))
		for k, v := range m.m {
			keyvals = append(keyvals, k.Name(), v.value)
		}
	}
	pprof.Do(ctx, pprof.Labels(keyvals...), f)
''','''	pprof.Do(ctx, pprof.Labels(labelsOf(FromContext(ctx))...), f)
}

func labelsOf(m *Map) []string {
	if m == nil {
		return nil
	}
	var keyvals []string
	for k, v := range m.m {
		keyvals = append(keyvals, k.name)
		keyvals = append(keyvals, v.value)
	}
	return keyvals
'''))
r('tag/string-form',(TM,'''	keys := make([]Key, 0, len(m.m))
	for k := range m.m {
		keys = append(keys, k)
	}
	sort.Slice(keys,''','''	var keys []Key
	for k := range m.m {
		keys = append(keys, k)
	}
	sort.Slice(keys,'''))

# ---- stats ----
SR='stats/record.go'; SM='stats/measure.go'
r('stats/any-subscribed',(SR,'''	record := false
	for _, m := range ms {
		if m.desc.subscribed() {
			record = true
			break
		}
	}
	if !record {
		return
	}
''','''	if !anySubscribed(ms) {
		return
	}
'''),(SR,'''	record := false
	for _, m := range o.measurements {
		if m.desc.subscribed() {
			record = true
			break
		}
	}
	if !record {
		return nil
	}
''','''	if !anySubscribed(o.measurements) {
		return nil
	}
'''),(SR,'type Options func(','''func anySubscribed(ms []Measurement) bool {
	for i := range ms {
		if ms[i].desc.subscribed() {
			return true
		}
	}
	return false
}

// Options apply changes to recordOptions.
type Options func('''))
r('stats/record-order',(SR,'''	if len(ms) == 0 {
		return
	}
	recorder, initialized := internal.MeasurementRecorder.(measurementRecorder)
	if !initialized {
		// The init function in view/worker.go has not been run yet. It is
		// safe to assume no view has been registered and drop the measurement.
		return
	}
''','''	recorder, ok := internal.MeasurementRecorder.(measurementRecorder)
	if !ok || len(ms) == 0 {
		return
	}
'''))
r('stats/recorder-choice',(SR,'''	recorder := internal.DefaultRecorder
	if o.recorder != nil {
		recorder = o.recorder.Record
	}
	if recorder == nil {
		return nil
	}
''','''	var recorder func(*tag.Map, interface{}, map[string]interface{})
	switch {
	case o.recorder != nil:
		recorder = o.recorder.Record
	case internal.DefaultRecorder != nil:
		recorder = internal.DefaultRecorder
	default:
		return nil
	}
'''))
r('stats/tags-always',(SR,'''	if len(o.mutators) > 0 {
		var err error
		if ctx, err = tag.New(ctx, o.mutators...); err != nil {
			return err
		}
	}
	recorder(tag.FromContext(ctx), o.measurements, o.attachments)
	return nil
''','''	tags := tag.FromContext(ctx)
	if len(o.mutators) > 0 {
		tagged, err := tag.New(ctx, o.mutators...)
		if err != nil {
			return err
		}
		tags = tag.FromContext(tagged)
	}
	recorder(tags, o.measurements, o.attachments)
	return nil
'''))
r('stats/options-loop',(SR,'''	o := &recordOptions{}
	for _, ro := range ros {
		ro(o)
	}
	return o
''','''	var o recordOptions
	for i := 0; i < len(ros); i++ {
		ros[i](&o)
	}
	return &o
'''))
r('stats/withtags-direct',(SR,'''	return RecordWithOptions(ctx, WithTags(mutators...), WithMeasurements(ms...))
''','''	opts := []Options{
		WithMeasurements(ms...),
		WithTags(mutators...),
	}
	return RecordWithOptions(ctx, opts...)
'''))
r('stats/measure-form',(SM,'''	if stored, ok := measures[name]; ok {
		return stored
	}
	m := &measureDescriptor{
		name:        name,
		description: desc,
		unit:        unit,
	}
	measures[name] = m
	return m
''','''	m, ok := measures[name]
	if !ok {
		m = &measureDescriptor{name: name, description: desc, unit: unit}
		measures[name] = m
	}
	return m
'''))
r('stats/reporter-func',(SR,'''	internal.SubscriptionReporter = func(measure string) {
		mu.Lock()
		measures[measure].subscribe()
		mu.Unlock()
	}
''','''	internal.SubscriptionReporter = subscribeMeasure
'''),(SR,'type Recorder interface','''func subscribeMeasure(measure string) {
	mu.RLock()
	d := measures[measure]
	mu.RUnlock()
	d.subscribe()
}

type Recorder interface'''))
r('stats/subs-swap',(SM,'''	atomic.StoreInt32(&m.subs, 1)
''','''	atomic.CompareAndSwapInt32(&m.subs, 0, 1)
'''),(SM,'''	return atomic.LoadInt32(&m.subs) == 1
''','''	return atomic.LoadInt32(&m.subs) != 0
'''))

# ---- stats/view ----
W='stats/view/worker.go'; WC='stats/view/worker_commands.go'; VC='stats/view/collector.go'; AD='stats/view/aggregation_data.go'; VW='stats/view/view.go'; VM='stats/view/view_to_metric.go'
r('view/wait-helper',(W,'''	w.send(req)
	select {
	case <-req.done:
	case <-w.done:
	}
''','''	w.send(req)
	w.await(req.done)
'''),(W,'func (w *worker) send(','''func (w *worker) await(reply <-chan struct{}) {
	select {
	case <-reply:
	case <-w.done:
	}
}

func (w *worker) send('''))
r('view/unregister-names',(W,'''	names := make([]string, len(views))
	for i := range views {
		names[i] = views[i].Name
	}
''','''	var names []string
	for _, v := range views {
		names = append(names, v.Name)
	}
'''))
r('view/find-form',(W,'''	select {
	case resp := <-req.c:
		return resp.v
	case <-w.done:
		return nil
	}
''','''	select {
	case resp := <-req.c:
		v = resp.v
	case <-w.done:
	}
	return v
'''))
r('view/retrieve-direct',(W,'''	case resp := <-req.c:
		return resp.rows, resp.err
	case <-w.done:
		return nil, errStopped
	}
''','''	case <-w.done:
	case resp := <-req.c:
		return resp.rows, resp.err
	}
	return nil, errStopped
'''))
r('view/start-begin',(W,'''	w.stateMu.Lock()
	if w.running || w.stopped {
		w.stateMu.Unlock()
		return
	}
	w.running = true
	prodMgr := metricproducer.GlobalManager()
	prodMgr.AddProducer(w)
	w.stateMu.Unlock()

	for {
''','''	if !w.begin() {
		return
	}
	for {
'''),(W,'func (w *worker) Stop() {','''// begin reports whether the caller is to run the meter.
func (w *worker) begin() bool {
	w.stateMu.Lock()
	defer w.stateMu.Unlock()
	if w.running || w.stopped {
		return false
	}
	w.running = true
	metricproducer.GlobalManager().AddProducer(w)
	return true
}

func (w *worker) Stop() {'''))
r('view/stop-defer',(W,'''		case <-w.quit:
			w.timer.Stop()
			close(w.done)
			return
		}
	}
''','''		case <-w.quit:
			return
		}
	}
'''),(W,'''	for {
		select {
		case cmd''','''	defer close(w.done)
	defer func() { w.timer.Stop() }()
	for {
		select {
		case cmd'''))
r('view/stop-form',(W,'''	w.stateMu.Lock()
	if !w.stopped {
		w.stopped = true
		close(w.quit)
		if !w.running {
			close(w.done)
		}
	}
	prodMgr := metricproducer.GlobalManager()
	prodMgr.DeleteProducer(w)
	w.stateMu.Unlock()
	<-w.done
''','''	w.shutdown()
	<-w.done
'''),(W,'func (w *worker) getMeasureRef','''func (w *worker) shutdown() {
	w.stateMu.Lock()
	defer w.stateMu.Unlock()
	metricproducer.GlobalManager().DeleteProducer(w)
	if w.stopped {
		return
	}
	w.stopped = true
	close(w.quit)
	if !w.running {
		close(w.done)
	}
}

func (w *worker) getMeasureRef'''))
r('view/measureref-form',(W,'''	if mr, ok := w.measures[name]; ok {
		return mr
	}
	mr := &measureRef{
		measure: name,
		views:   make(map[*viewInternal]struct{}),
	}
	w.measures[name] = mr
	return mr
''','''	mr := w.measures[name]
	if mr == nil {
		mr = &measureRef{measure: name, views: make(map[*viewInternal]struct{})}
		w.measures[name] = mr
	}
	return mr
'''))
r('view/try-lookup-first',(W,'''	vi, err := newViewInternal(v)
	if err != nil {
		return nil, err
	}
	if x, ok := w.views[vi.view.Name]; ok {
		if !x.view.same(vi.view) {
			return nil, fmt.Errorf("cannot register view %q; a different view with the same name is already registered", v.Name)
		}
''','''	if x, ok := w.views[v.Name]; ok {
		if !x.view.same(v) {
			return nil, fmt.Errorf("cannot register view %q; a different view with the same name is already registered", v.Name)
		}
'''),(W,'''		return x, nil
	}
	w.views[vi.view.Name] = vi
''','''		return x, nil
	}
	vi, err := newViewInternal(v)
	if err != nil {
		return nil, err
	}
	w.views[vi.view.Name] = vi
'''))
r('view/try-add-helper',(W,'''	w.views[vi.view.Name] = vi
	w.viewStartTimes[vi] = time.Now()
	ref := w.getMeasureRef(vi.view.Measure.Name())
	ref.views[vi] = struct{}{}
	return vi, nil
''','''	w.add(vi)
	return vi, nil
'''),(W,'func (w *worker) unregisterView','''// add makes a view known; the caller holds mu.
func (w *worker) add(vi *viewInternal) {
	w.getMeasureRef(vi.view.Measure.Name()).views[vi] = struct{}{}
	w.viewStartTimes[vi] = time.Now()
	w.views[vi.view.Name] = vi
}

func (w *worker) unregisterView'''))
r('view/unregister-order',(W,'''	delete(w.views, v.view.Name)
	delete(w.viewStartTimes, v)
	if measure := w.measures[v.view.Measure.Name()]; measure != nil {
		delete(measure.views, v)
	}
''','''	if ref, ok := w.measures[v.view.Measure.Name()]; ok {
		delete(ref.views, v)
	}
	delete(w.viewStartTimes, v)
	delete(w.views, v.view.Name)
'''))
r('view/report-data',(W,'''	rows := v.collectedRows()
	viewData := &Data{
		View:  v.view,
		Start: w.viewStartTimes[v],
		End:   time.Now(),
		Rows:  rows,
	}
	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
	for e := range w.exporters {
		e.ExportView(viewData)
	}
''','''	w.export(&Data{
		Rows:  v.collectedRows(),
		View:  v.view,
		Start: w.viewStartTimes[v],
		End:   time.Now(),
	})
'''),(W,'func (w *worker) reportUsage','''func (w *worker) export(d *Data) {
	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
	for e := range w.exporters {
		e.ExportView(d)
	}
}

func (w *worker) reportUsage'''))
r('view/report-subscribed',(W,'''	if !v.isSubscribed() {
		return
	}
	rows := v.collectedRows()
	viewData''','''	if v.isSubscribed() {
		w.reportSubscribed(v)
	}
}

func (w *worker) reportSubscribed(v *viewInternal) {
	rows := v.collectedRows()
	viewData'''))
r('view/read-form',(W,'''		metric := w.toMetric(v, now)
		if metric != nil {
			metrics = append(metrics, metric)
		}
''','''		m := w.toMetric(v, now)
		if m == nil {
			continue
		}
		metrics = append(metrics, m)
'''))
r('view/read-inline',(W,'''		metric := w.toMetric(v, now)
		if metric != nil {
			metrics = append(metrics, metric)
		}
''','''		if !v.isSubscribed() {
			continue
		}
		if metric := viewToMetric(v, w.r, now); metric != nil {
			metrics = append(metrics, metric)
		}
'''),(W,'''func (w *worker) toMetric(v *viewInternal, now time.Time) *metricdata.Metric {
	if !v.isSubscribed() {
		return nil
	}

	return viewToMetric(v, w.r, now)
}
''',''))
r('view/cmd-find',(WC,'''	v := w.views[cmd.name]
	if v == nil {
		cmd.c <- &getViewByNameResp{nil}
		return
	}
	cmd.c <- &getViewByNameResp{v.view}
''','''	resp := new(getViewByNameResp)
	if vi, ok := w.views[cmd.name]; ok {
		resp.v = vi.view
	}
	cmd.c <- resp
'''))
r('view/cmd-register-helper',(WC,'''	for _, v := range cmd.views {
		if err := v.canonicalize(); err != nil {
			cmd.err <- err
			return
		}
	}
	var errstr []string
	for _, view := range cmd.views {
		vi, err := w.tryRegisterView(view)
		if err != nil {
			errstr = append(errstr, fmt.Sprintf("%s: %v", view.Name, err))
			continue
		}
		internal.SubscriptionReporter(view.Measure.Name())
		vi.subscribe()
	}
	if len(errstr) > 0 {
		cmd.err <- errors.New(strings.Join(errstr, "\\n"))
	} else {
		cmd.err <- nil
	}
''','''	cmd.err <- w.registerAll(cmd.views)
}

func (w *worker) registerAll(views []*View) error {
	for _, v := range views {
		if err := v.canonicalize(); err != nil {
			return err
		}
	}
	var errstr []string
	for _, view := range views {
		if err := w.registerOne(view); err != nil {
			errstr = append(errstr, fmt.Sprintf("%s: %v", view.Name, err))
		}
	}
	if len(errstr) == 0 {
		return nil
	}
	return errors.New(strings.Join(errstr, "\\n"))
}

func (w *worker) registerOne(view *View) error {
	vi, err := w.tryRegisterView(view)
	if err != nil {
		return err
	}
	internal.SubscriptionReporter(view.Measure.Name())
	vi.subscribe()
	return nil
'''))
r('view/cmd-unregister-helper',(WC,'''		vi, ok := w.views[name]
		if !ok {
			continue
		}

		// Report pending data for this view before removing it.
		w.reportView(vi)

		vi.unsubscribe()
		if !vi.isSubscribed() {
''','''		if vi, ok := w.views[name]; ok {
			w.dismiss(vi)
		}
	}
	cmd.done <- struct{}{}
}

// dismiss reports a view for the last time and forgets it.
func (w *worker) dismiss(vi *viewInternal) {
	w.reportView(vi)

	vi.unsubscribe()
	if !vi.isSubscribed() {
'''),(WC,'''			// this was the last subscription and view is not collecting anymore.
			// The collected data can be cleared.
			w.mu.Lock()
			vi.clearRows()
			w.mu.Unlock()
		}
		w.unregisterView(vi)
	}
	cmd.done <- struct{}{}
}
''','''		w.mu.Lock()
		vi.clearRows()
		w.mu.Unlock()
	}
	w.unregisterView(vi)
}
'''))
r('view/cmd-retrieve-helper',(WC,'''	w.mu.Lock()
	defer w.mu.Unlock()
	vi, ok := w.views[cmd.v]
	if !ok {
		cmd.c <- &retrieveDataResp{
			nil,
			fmt.Errorf("cannot retrieve data; view %q is not registered", cmd.v),
		}
		return
	}

	if !vi.isSubscribed() {
		cmd.c <- &retrieveDataResp{
			nil,
			fmt.Errorf("cannot retrieve data; view %q has no subscriptions or collection is not forcibly started", cmd.v),
		}
		return
	}
	cmd.c <- &retrieveDataResp{
		vi.collectedRows(),
		nil,
	}
''','''	rows, err := w.rowsOf(cmd.v)
	cmd.c <- &retrieveDataResp{rows: rows, err: err}
}

func (w *worker) rowsOf(name string) ([]*Row, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	vi, ok := w.views[name]
	switch {
	case !ok:
		return nil, fmt.Errorf("cannot retrieve data; view %q is not registered", name)
	case !vi.isSubscribed():
		return nil, fmt.Errorf("cannot retrieve data; view %q has no subscriptions or collection is not forcibly started", name)
	}
	return vi.collectedRows(), nil
'''))
r('view/cmd-record-helper',(WC,'''		if (m == stats.Measurement{}) { // not registered
			continue
		}
		ref := w.getMeasureRef(m.Measure().Name())
		for v := range ref.views {
			v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
		}
	}
}
''','''		if m != (stats.Measurement{}) {
			cmd.add(w, m)
		}
	}
}

// add hands a measurement to the views of its measure.
func (cmd *recordReq) add(w *worker, m stats.Measurement) {
	for v := range w.getMeasureRef(m.Measure().Name()).views {
		v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
	}
}
'''))
r('view/cmd-record-index',(WC,'''	for _, m := range cmd.ms {
		if (m == stats.Measurement{}) { // not registered
			continue
		}
		ref := w.getMeasureRef(m.Measure().Name())
		for v := range ref.views {
			v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
		}
''','''	for i := range cmd.ms {
		m := &cmd.ms[i]
		if (*m == stats.Measurement{}) { // not registered
			continue
		}
		val := m.Value()
		views := w.getMeasureRef(m.Measure().Name()).views
		for v := range views {
			v.addSample(cmd.tm, val, cmd.attachments, cmd.t)
		}
'''))
r('view/cmd-period',(WC,'''	w.timer.Stop()
	if cmd.d <= 0 {
		w.timer = time.NewTicker(defaultReportingDuration)
	} else {
		w.timer = time.NewTicker(cmd.d)
	}
	cmd.c <- true
''','''	d := cmd.d
	if d <= 0 {
		d = defaultReportingDuration
	}
	w.timer.Stop()
	w.timer = time.NewTicker(d)
	cmd.c <- true
'''))
r('view/coll-add',(VC,'''	aggregator, ok := c.signatures[s]
	if !ok {
		aggregator = c.a.newData(t)
		c.signatures[s] = aggregator
	}
	aggregator.addSample(v, attachments, t)
''','''	c.dataOf(s, t).addSample(v, attachments, t)
}

func (c *collector) dataOf(s string, t time.Time) AggregationData {
	if d, ok := c.signatures[s]; ok {
		return d
	}
	d := c.a.newData(t)
	c.signatures[s] = d
	return d
'''))
r('view/coll-rows',(VC,'''		tags := decodeTags([]byte(sig), keys)
		row := &Row{Tags: tags, Data: aggregator.clone()}
		rows = append(rows, row)
''','''		rows = append(rows, &Row{
			Data: aggregator.clone(),
			Tags: decodeTags([]byte(sig), keys),
		})
'''))
r('view/coll-encode',(VC,'''	// Compute the buffer length we will need ahead of time to avoid resizing later
	reqLen := 0
	for _, k := range keys {
		s, _ := m.Value(k)
		// We will store each key + its length
		reqLen += len(s) + 1
	}
	vb := &tagencoding.Values{
		Buffer: make([]byte, reqLen),
	}
	for _, k := range keys {
		v, _ := m.Value(k)
		vb.WriteValue([]byte(v))
	}
	return vb.Bytes()
''','''	var n int
	for i := range keys {
		if s, ok := m.Value(keys[i]); ok {
			n += len(s)
		}
	}
	vb := tagencoding.Values{Buffer: make([]byte, n+len(keys))}
	for i := range keys {
		v, _ := m.Value(keys[i])
		vb.WriteValue([]byte(v))
	}
	return vb.Bytes()
'''))
r('view/coll-decode',(VC,'''		v := vb.ReadValue()
		if v != nil {
			tags = append(tags, tag.Tag{Key: k, Value: string(v)})
		}
	}
	vb.ReadIndex = 0
''','''		v := vb.ReadValue()
		if v == nil {
			continue
		}
		t := tag.Tag{Key: k, Value: string(v)}
		tags = append(tags, t)
	}
'''))
r('view/dist-add',(AD,'''	if v < a.Min {
		a.Min = v
	}
	if v > a.Max {
		a.Max = v
	}
	a.Count++
	a.addToBucket(v, attachments, t)

	if a.Count == 1 {
		a.Mean = v
		return
	}

	oldMean := a.Mean
	a.Mean = a.Mean + (v-a.Mean)/float64(a.Count)
	a.SumOfSquaredDev = a.SumOfSquaredDev + (v-oldMean)*(v-a.Mean)
''','''	a.addToBucket(v, attachments, t)
	a.Min = math.Min(a.Min, v)
	a.Max = math.Max(a.Max, v)
	a.Count++
	if a.Count == 1 {
		a.Mean = v
	} else {
		delta := v - a.Mean
		a.Mean += delta / float64(a.Count)
		a.SumOfSquaredDev += delta * (v - a.Mean)
	}
'''))
r('view/dist-bucket',(AD,'''	var count *int64
	var i int
	var b float64
	for i, b = range a.bounds {
		if v < b {
			count = &a.CountPerBucket[i]
			break
		}
	}
	if count == nil { // Last bucket.
		i = len(a.bounds)
		count = &a.CountPerBucket[i]
	}
	*count++
	if exemplar''','''	i := 0
	for i < len(a.bounds) && v >= a.bounds[i] {
		i++
	}
	a.CountPerBucket[i]++
	if exemplar'''))
r('view/dist-bucket-func',(AD,'''	var count *int64
	var i int
	var b float64
	for i, b = range a.bounds {
		if v < b {
			count = &a.CountPerBucket[i]
			break
		}
	}
	if count == nil { // Last bucket.
		i = len(a.bounds)
		count = &a.CountPerBucket[i]
	}
	*count++
	if exemplar''','''	i := a.bucketOf(v)
	a.CountPerBucket[i]++
	if exemplar'''),(AD,'func getExemplar','''func (a *DistributionData) bucketOf(v float64) int {
	for i, b := range a.bounds {
		if v < b {
			return i
		}
	}
	return len(a.bounds)
}

func getExemplar'''))
r('view/dist-clone',(AD,'''	c := *a
	c.CountPerBucket = append([]int64(nil), a.CountPerBucket...)
	c.ExemplarsPerBucket = append([]*metricdata.Exemplar(nil), a.ExemplarsPerBucket...)
	return &c
''','''	c := &DistributionData{}
	*c = *a
	c.CountPerBucket = make([]int64, len(a.CountPerBucket))
	copy(c.CountPerBucket, a.CountPerBucket)
	c.ExemplarsPerBucket = make([]*metricdata.Exemplar, len(a.ExemplarsPerBucket))
	copy(c.ExemplarsPerBucket, a.ExemplarsPerBucket)
	return c
'''))
r('view/count-inc',(AD,'''	a.Value = a.Value + 1
''','''	a.Value++
'''),(AD,'''	return &CountData{Value: a.Value, Start: a.Start}
''','''	c := *a
	return &c
'''),(AD,'''	return &LastValueData{l.Value}
''','''	c := new(LastValueData)
	c.Value = l.Value
	return c
'''))
r('view/topoint-if',(AD,'''	switch metricType {
	case metricdata.TypeCumulativeInt64:
		return metricdata.NewInt64Point(t, a.Value)
	default:
		panic("unsupported metricdata.Type")
	}
''','''	if metricType != metricdata.TypeCumulativeInt64 {
		panic("unsupported metricdata.Type")
	}
	return metricdata.NewInt64Point(t, a.Value)
'''))
r('view/topoint-dist',(AD,'''		buckets := []metricdata.Bucket{}
		for i := 0; i < len(a.CountPerBucket); i++ {
			buckets = append(buckets, metricdata.Bucket{
				Count:    a.CountPerBucket[i],
				Exemplar: a.ExemplarsPerBucket[i],
			})
		}
''','''		buckets := make([]metricdata.Bucket, len(a.CountPerBucket))
		for i, n := range a.CountPerBucket {
			buckets[i].Count = n
			buckets[i].Exemplar = a.ExemplarsPerBucket[i]
		}
'''))
r('view/topoint-dist2',(AD,'''		buckets := []metricdata.Bucket{}
		for i := 0; i < len(a.CountPerBucket); i++ {
			buckets = append(buckets, metricdata.Bucket{
				Count:    a.CountPerBucket[i],
				Exemplar: a.ExemplarsPerBucket[i],
			})
		}
''','''		buckets := make([]metricdata.Bucket, 0, len(a.CountPerBucket))
		for i, n := range a.CountPerBucket {
			buckets = append(buckets, metricdata.Bucket{Count: n, Exemplar: a.ExemplarsPerBucket[i]})
		}
'''))
r('view/exemplar-form',(AD,'''	if exemplar := getExemplar(v, attachments, t); exemplar != nil {
		a.ExemplarsPerBucket[i] = exemplar
	}
''','''	if len(attachments) > 0 {
		a.ExemplarsPerBucket[i] = &metricdata.Exemplar{Value: v, Timestamp: t, Attachments: attachments}
	}
'''),(AD,'''func getExemplar(v float64, attachments map[string]interface{}, t time.Time) *metricdata.Exemplar {
	if len(attachments) == 0 {
		return nil
	}
	return &metricdata.Exemplar{
		Value:       v,
		Timestamp:   t,
		Attachments: attachments,
	}
}
''',''))
r('view/same-form',(VW,'''	if v.Measure.Name() != other.Measure.Name() || v.Aggregation.Type != other.Aggregation.Type {
		return false
	}
	if len(v.TagKeys) != len(other.TagKeys) || len(v.Aggregation.Buckets) != len(other.Aggregation.Buckets) {
		return false
	}
	for i := range v.TagKeys {
		if v.TagKeys[i].Name() != other.TagKeys[i].Name() {
			return false
		}
	}
	for i := range v.Aggregation.Buckets {
		if v.Aggregation.Buckets[i] != other.Aggregation.Buckets[i] {
			return false
		}
	}
	return true
''','''	return v.Measure.Name() == other.Measure.Name() &&
		v.Aggregation.Type == other.Aggregation.Type &&
		sameKeys(v.TagKeys, other.TagKeys) &&
		sameBounds(v.Aggregation.Buckets, other.Aggregation.Buckets)
}

func sameKeys(a, b []tag.Key) bool {
	if len(a) != len(b) {
		return false
	}
	for i, k := range a {
		if k.Name() != b[i].Name() {
			return false
		}
	}
	return true
}

func sameBounds(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i, x := range a {
		if x != b[i] {
			return false
		}
	}
	return true
'''))
r('view/canon-helper',(VW,'''	if v == nil {
		return errors.New("cannot register a nil view")
	}
	if v.Measure == nil {
		return fmt.Errorf("cannot register view %q: measure not set", v.Name)
	}
	if v.Aggregation == nil {
		return fmt.Errorf("cannot register view %q: aggregation not set", v.Name)
	}
''','''	if err := v.complete(); err != nil {
		return err
	}
'''),(VW,'func dropZeroBounds(','''func (v *View) complete() error {
	switch {
	case v == nil:
		return errors.New("cannot register a nil view")
	case v.Measure == nil:
		return fmt.Errorf("cannot register view %q: measure not set", v.Name)
	case v.Aggregation == nil:
		return fmt.Errorf("cannot register view %q: aggregation not set", v.Name)
	}
	return nil
}

func dropZeroBounds('''))
r('view/canon-order',(VW,'''	sort.Slice(v.TagKeys, func(i, j int) bool {
		return v.TagKeys[i].Name() < v.TagKeys[j].Name()
	})
	sort.Float64s(v.Aggregation.Buckets)
	for _, b := range v.Aggregation.Buckets {
		if b < 0 {
			return ErrNegativeBucketBounds
		}
	}
''','''	sort.Float64s(v.Aggregation.Buckets)
	for i := range v.Aggregation.Buckets {
		if v.Aggregation.Buckets[i] < 0 {
			return ErrNegativeBucketBounds
		}
	}
	keys := v.TagKeys
	sort.Slice(keys, func(i, j int) bool { return keys[i].Name() < keys[j].Name() })
'''))
r('view/addsample',(VW,'''	if !v.isSubscribed() {
		return
	}
	sig := string(encodeWithKeys(m, v.view.TagKeys))
	v.collector.addSample(sig, val, attachments, t)
''','''	if v.isSubscribed() {
		sig := encodeWithKeys(m, v.view.TagKeys)
		v.collector.addSample(string(sig), val, attachments, t)
	}
'''))
r('view/newinternal',(VW,'''	return &viewInternal{
		view:             v,
		collector:        &collector{make(map[string]AggregationData), v.Aggregation},
		metricDescriptor: viewToMetricDescriptor(v),
	}, nil
''','''	c := new(collector)
	c.signatures = map[string]AggregationData{}
	c.a = v.Aggregation
	vi := &viewInternal{view: v, collector: c}
	vi.metricDescriptor = viewToMetricDescriptor(v)
	return vi, nil
'''))
r('view/metric-type',(VM,'''	case AggTypeCount:
		switch m.(type) {
		case *stats.Int64Measure:
			return metricdata.TypeCumulativeInt64
		case *stats.Float64Measure:
			return metricdata.TypeCumulativeInt64
		default:
			panic("unexpected measure type")
		}
''','''	case AggTypeCount:
		switch m.(type) {
		case *stats.Int64Measure, *stats.Float64Measure:
			return metricdata.TypeCumulativeInt64
		}
		panic("unexpected measure type")
'''))
r('view/metric-type-if',(VM,'''	case AggTypeSum:
		switch m.(type) {
		case *stats.Int64Measure:
			return metricdata.TypeCumulativeInt64
		case *stats.Float64Measure:
			return metricdata.TypeCumulativeFloat64
		default:
			panic("unexpected measure type")
		}
''','''	case AggTypeSum:
		if _, ok := m.(*stats.Int64Measure); ok {
			return metricdata.TypeCumulativeInt64
		}
		if _, ok := m.(*stats.Float64Measure); ok {
			return metricdata.TypeCumulativeFloat64
		}
		panic("unexpected measure type")
'''))
r('view/metric-labels',(VM,'''	labelValues := []metricdata.LabelValue{}
	tagMap := make(map[string]string)
	for _, tag := range row.Tags {
		tagMap[tag.Key.Name()] = tag.Value
	}

	for _, key := range expectedKeys {
		if val, ok := tagMap[key.Key]; ok {
			labelValues = append(labelValues, metricdata.NewLabelValue(val))
		} else {
			labelValues = append(labelValues, metricdata.LabelValue{})
		}
	}
	return labelValues
''','''	tagMap := make(map[string]string, len(row.Tags))
	for _, tag := range row.Tags {
		tagMap[tag.Key.Name()] = tag.Value
	}
	labelValues := make([]metricdata.LabelValue, 0, len(expectedKeys))
	for _, key := range expectedKeys {
		var lv metricdata.LabelValue
		if val, ok := tagMap[key.Key]; ok {
			lv = metricdata.NewLabelValue(val)
		}
		labelValues = append(labelValues, lv)
	}
	return labelValues
'''))
r('view/metric-labels-idx',(VM,'''	for _, key := range expectedKeys {
		if val, ok := tagMap[key.Key]; ok {
			labelValues = append(labelValues, metricdata.NewLabelValue(val))
		} else {
			labelValues = append(labelValues, metricdata.LabelValue{})
		}
	}
	return labelValues
''','''	labelValues = make([]metricdata.LabelValue, len(expectedKeys))
	for i, key := range expectedKeys {
		if val, ok := tagMap[key.Key]; ok {
			labelValues[i] = metricdata.NewLabelValue(val)
		}
	}
	return labelValues
'''))
r('view/metric-ts',(VM,'''	ts := []*metricdata.TimeSeries{}
	for _, row := range rows {
		ts = append(ts, rowToTimeseries(v, row, now))
	}
''','''	ts := make([]*metricdata.TimeSeries, len(rows))
	for i, row := range rows {
		ts[i] = rowToTimeseries(v, row, now)
	}
'''))
r('view/metric-unit',(VM,'''	switch v.Aggregation.Type {
	case AggTypeCount:
		return metricdata.UnitDimensionless
	default:
		return getUnit(v.Measure.Unit())
	}
''','''	if v.Aggregation.Type == AggTypeCount {
		return metricdata.UnitDimensionless
	}
	return getUnit(v.Measure.Unit())
'''),(VM,'''	switch unit {
	case "1":
		return metricdata.UnitDimensionless
	case "ms":
		return metricdata.UnitMilliseconds
	case "By":
		return metricdata.UnitBytes
	}
	return metricdata.UnitDimensionless
''','''	switch unit {
	case "ms":
		return metricdata.UnitMilliseconds
	case "By":
		return metricdata.UnitBytes
	default:
		return metricdata.UnitDimensionless
	}
'''))
r('view/enc-write',('internal/tagencoding/tagencoding.go','''	length := len(v) & 0xff
	vb.growIfRequired(1 + length)

	// writing length of v
	vb.Buffer[vb.WriteIndex] = byte(length)
	vb.WriteIndex++

	if length == 0 {
		// No value was encoded for this key
		return
	}

	// writing v
	copy(vb.Buffer[vb.WriteIndex:], v[:length])
	vb.WriteIndex += length
''','''	n := len(v) & 0xff
	vb.growIfRequired(n + 1)
	vb.Buffer[vb.WriteIndex] = byte(n)
	copy(vb.Buffer[vb.WriteIndex+1:], v[:n])
	vb.WriteIndex += 1 + n
'''))

# ---- metric ----
MC='metric/common.go'; MG='metric/gauge.go'; MU='metric/cumulative.go'; MR='metric/registry.go'; MP='metric/metricproducer/manager.go'; ME='metric/metricexport/reader.go'
r('metric/starttime-value',(MC,'''func (bm *baseMetric) startTime() *time.Time {
	switch bm.bmType {
	case cumulativeInt64, cumulativeFloat64, derivedCumulativeInt64, derivedCumulativeFloat64:
		return &bm.start
	default:
		// gauges don't have start time.
		return nil
	}
}
''','''func (bm *baseMetric) startTime(now time.Time) time.Time {
	switch bm.bmType {
	case cumulativeInt64, cumulativeFloat64, derivedCumulativeInt64, derivedCumulativeFloat64:
		return bm.start
	}
	// gauges don't have start time.
	return now
}
'''),(MC,'''	startTime := bm.startTime()
	if startTime == nil {
		startTime = &now
	}
''','''	startTime := bm.startTime(now)
'''),(MC,'*startTime,','startTime,'))
r('metric/starttime-ge',(MC,'''	switch bm.bmType {
	case cumulativeInt64, cumulativeFloat64, derivedCumulativeInt64, derivedCumulativeFloat64:
		return &bm.start
	default:
		// gauges don't have start time.
		return nil
	}
''','''	if bm.bmType < cumulativeInt64 {
		return nil
	}
	return &bm.start
'''))
r('metric/read-helper',(MC,'''		entry := v.(baseEntry)
		key := k.(string)
		labelVals := bm.decodeLabelVals(key)
		m.TimeSeries = append(m.TimeSeries, &metricdata.TimeSeries{
			StartTime:   *startTime,
			LabelValues: labelVals,
			Points: []metricdata.Point{
				entry.read(now),
			},
		})
		return true
	})
	return m
}
''','''		m.TimeSeries = append(m.TimeSeries, bm.series(k.(string), v.(baseEntry), *startTime, now))
		return true
	})
	return m
}

func (bm *baseMetric) series(key string, entry baseEntry, start, now time.Time) *metricdata.TimeSeries {
	ts := new(metricdata.TimeSeries)
	ts.LabelValues = bm.decodeLabelVals(key)
	ts.StartTime = start
	ts.Points = append(ts.Points, entry.read(now))
	return ts
}
'''))
r('metric/read-collect',(MC,'''	m := &metricdata.Metric{
		Descriptor: bm.desc,
	}
	bm.vals.Range(''','''	var series []*metricdata.TimeSeries
	bm.vals.Range('''),(MC,'''		m.TimeSeries = append(m.TimeSeries, &metricdata''','''		series = append(series, &metricdata'''),(MC,'''		return true
	})
	return m
''','''		return true
	})
	return &metricdata.Metric{Descriptor: bm.desc, TimeSeries: series}
'''))
r('metric/upsert-key-helper',(MC,'''	labelVals = bm.withConstLabelVals(labelVals)
	if len(labelVals) != len(bm.keys) {
		return nil, errKeyValueMismatch
	}
	mapKey := bm.encodeLabelVals(labelVals)
	if entry,''','''	mapKey, err := bm.keyFor(labelVals)
	if err != nil {
		return nil, err
	}
	if entry,'''),(MC,'''	labelVals = bm.withConstLabelVals(labelVals)
	if len(labelVals) != len(bm.keys) {
		return errKeyValueMismatch
	}
	mapKey := bm.encodeLabelVals(labelVals)
	bm.vals.Store''','''	mapKey, err := bm.keyFor(labelVals)
	if err != nil {
		return err
	}
	bm.vals.Store'''),(MC,'func (bm *baseMetric) upsertEntry','''func (bm *baseMetric) keyFor(labelVals []metricdata.LabelValue) (string, error) {
	if len(bm.constLabelValues)+len(labelVals) != len(bm.keys) {
		return "", errKeyValueMismatch
	}
	return bm.encodeLabelVals(bm.withConstLabelVals(labelVals)), nil
}

func (bm *baseMetric) upsertEntry'''))
r('metric/entry-early',(MC,'''	if entry, ok := bm.vals.Load(mapKey); ok {
		return entry, nil
	}
	entry, _ := bm.vals.LoadOrStore(mapKey, newEntry())
	return entry, nil
''','''	entry, ok := bm.vals.Load(mapKey)
	if !ok {
		entry, _ = bm.vals.LoadOrStore(mapKey, newEntry())
	}
	return entry, nil
'''))
r('metric/entry-nofast',(MC,'''	if entry, ok := bm.vals.Load(mapKey); ok {
		return entry, nil
	}
	entry, _ :=''','''	entry, _ :='''))
r('metric/const-append',(MC,'''	all := make([]metricdata.LabelValue, 0, len(bm.constLabelValues)+len(labelVals))
	all = append(all, bm.constLabelValues...)
	return append(all, labelVals...)
''','''	all := make([]metricdata.LabelValue, len(bm.constLabelValues)+len(labelVals))
	n := copy(all, bm.constLabelValues)
	copy(all[n:], labelVals)
	return all
'''))
r('metric/encode-else',(MC,'''		if !v.Present {
			b = append(b, 0)
			continue
		}
		n := binary.PutUvarint(size[:], uint64(len(v.Value))+1)
		b = append(b, size[:n]...)
		b = append(b, v.Value...)
	}
''','''		if v.Present {
			n := binary.PutUvarint(size[:], uint64(len(v.Value)+1))
			b = append(append(b, size[:n]...), v.Value...)
		} else {
			b = append(b, 0)
		}
	}
'''))
r('metric/encode-helper',(MC,'''		if !v.Present {
			b = append(b, 0)
			continue
		}
		n := binary.PutUvarint(size[:], uint64(len(v.Value))+1)
		b = append(b, size[:n]...)
		b = append(b, v.Value...)
	}
	return string(b)
}
''','''		b = appendLabelVal(b, v)
	}
	return string(b)
}

func appendLabelVal(b []byte, v metricdata.LabelValue) []byte {
	if !v.Present {
		return append(b, 0)
	}
	var size [binary.MaxVarintLen64]byte
	n := binary.PutUvarint(size[:], uint64(len(v.Value))+1)
	b = append(b, size[:n]...)
	return append(b, v.Value...)
}
'''),(MC,'''	var b []byte
	var size [binary.MaxVarintLen64]byte
	for''','''	var b []byte
	for'''))
r('metric/decode-else',(MC,'''		if size == 0 {
			vals = append(vals, metricdata.LabelValue{})
			continue
		}
		vals = append(vals, metricdata.NewLabelValue(string(b[:size-1])))
		b = b[size-1:]
	}
	return vals
''','''		var v metricdata.LabelValue
		if size > 0 {
			v.Present = true
			v.Value = string(b[:size-1])
			b = b[size-1:]
		}
		vals = append(vals, v)
	}
	return vals
'''))
r('metric/decode-index',(MC,'''	vals := make([]metricdata.LabelValue, 0, len(bm.keys))
	b := []byte(s)
	for range bm.keys {
		size, n := binary.Uvarint(b)
		b = b[n:]
		if size == 0 {
			vals = append(vals, metricdata.LabelValue{})
			continue
		}
		vals = append(vals, metricdata.NewLabelValue(string(b[:size-1])))
		b = b[size-1:]
	}
''','''	vals := make([]metricdata.LabelValue, len(bm.keys))
	b := []byte(s)
	for i := range vals {
		size, n := binary.Uvarint(b)
		b = b[n:]
		if size != 0 {
			vals[i] = metricdata.NewLabelValue(string(b[:size-1]))
			b = b[size-1:]
		}
	}
'''))
r('metric/gauge-max',(MG,'''	v := math.Float64frombits(atomic.LoadUint64(&e.val))
	if v < 0 {
		v = 0
	}
	return metricdata.NewFloat64Point(t, v)
}
''','''	return metricdata.NewFloat64Point(t, nonNegative(math.Float64frombits(atomic.LoadUint64(&e.val))))
}

func nonNegative(v float64) float64 {
	if v < 0 {
		return 0
	}
	return v
}
'''))
r('metric/gauge-read-early',(MG,'''	v := atomic.LoadInt64(&e.val)
	if v < 0 {
		v = 0.0
	}
	return metricdata.NewInt64Point(t, v)
''','''	if v := atomic.LoadInt64(&e.val); v > 0 {
		return metricdata.NewInt64Point(t, v)
	}
	return metricdata.NewInt64Point(t, 0)
'''))
r('metric/gauge-add-loop',(MG,'''	var swapped bool
	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
	}
''','''	for {
		old := atomic.LoadUint64(&e.val)
		if atomic.CompareAndSwapUint64(&e.val, old, math.Float64bits(math.Float64frombits(old)+val)) {
			return
		}
	}
'''))
r('metric/cum-inc-helper',(MU,'''	var swapped bool
	if !(val > 0) {
		return
	}
	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
	}
}
''','''	if val > 0 {
		addFloat64(&e.val, val)
	}
}

func addFloat64(p *uint64, val float64) {
	for {
		oldVal := atomic.LoadUint64(p)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		if atomic.CompareAndSwapUint64(p, oldVal, newVal) {
			return
		}
	}
}
'''),(MG,'''	var swapped bool
	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
	}
''','''	addFloat64(&e.val, val)
'''))
r('metric/cum-int-if',(MU,'''	if val <= 0 {
		return
	}
	atomic.AddInt64(&e.val, val)
''','''	if val > 0 {
		atomic.AddInt64(&e.val, val)
	}
'''))
r('metric/getentry-method-value',(MG,'''	entry, err := g.bm.entryForValues(labelVals, func() baseEntry {
		return &Int64GaugeEntry{}
	})
	if err != nil {
		return nil, err
	}
	return entry.(*Int64GaugeEntry), nil
''','''	entry, err := g.bm.entryForValues(labelVals, newInt64GaugeEntry)
	if err == nil {
		return entry.(*Int64GaugeEntry), nil
	}
	return nil, err
'''),(MG,'func (e *Int64GaugeEntry) read(','''func newInt64GaugeEntry() baseEntry { return new(Int64GaugeEntry) }

func (e *Int64GaugeEntry) read('''))
r('metric/upsert-direct',(MG,'''	return g.bm.upsertEntry(labelVals, func() baseEntry {
		return &int64DerivedGaugeEntry{fn}
	})
''','''	return g.bm.upsertEntry(labelVals, &int64DerivedGaugeEntry{fn: fn})
'''),(MG,'''	return g.bm.upsertEntry(labelVals, func() baseEntry {
		return &float64DerivedGaugeEntry{fn}
	})
''','''	return g.bm.upsertEntry(labelVals, &float64DerivedGaugeEntry{fn: fn})
'''),(MU,'''	return c.bm.upsertEntry(labelVals, func() baseEntry {
		return &int64DerivedCumulativeEntry{fn}
	})
''','''	return c.bm.upsertEntry(labelVals, &int64DerivedCumulativeEntry{fn: fn})
'''),(MU,'''	return c.bm.upsertEntry(labelVals, func() baseEntry {
		return &float64DerivedCumulativeEntry{fn}
	})
''','''	return c.bm.upsertEntry(labelVals, &float64DerivedCumulativeEntry{fn: fn})
'''),(MC,'labelVals []metricdata.LabelValue, newEntry func() baseEntry) error {','labelVals []metricdata.LabelValue, entry baseEntry) error {'),(MC,'''	bm.vals.Store(mapKey, newEntry())
''','''	bm.vals.Store(mapKey, entry)
'''))
r('metric/reg-add-helper',(MR,'''	i := &Int64Gauge{
		bm: baseMetric{
			bmType: gaugeInt64,
		},
	}
	_, err := r.initBaseMetric(&i.bm, name, mos...)
	if err != nil {
		return nil, err
	}
	return i, nil
''','''	i := new(Int64Gauge)
	i.bm.bmType = gaugeInt64
	if _, err := r.initBaseMetric(&i.bm, name, mos...); err != nil {
		return nil, err
	}
	return i, nil
'''))
r('metric/reg-init-type-arg',(MR,'''func (r *Registry) initBaseMetric(bm *baseMetric, name string, mos ...Options) (*baseMetric, error) {
	val, ok := r.baseMetrics.Load(name)
	if ok {
		existing := val.(*baseMetric)
		if existing.bmType != bm.bmType {
			return nil, errMetricExistsWithDiffType
		}
	}
''','''func (r *Registry) initBaseMetric(bm *baseMetric, name string, mos ...Options) (*baseMetric, error) {
	if val, ok := r.baseMetrics.Load(name); ok && val.(*baseMetric).bmType != bm.bmType {
		return nil, errMetricExistsWithDiffType
	}
'''))
r('metric/reg-labels-helper',(MR,'''	var constLabelKeys []metricdata.LabelKey
	for k := range o.constLabels {
		constLabelKeys = append(constLabelKeys, k)
	}
	sort.Slice(constLabelKeys, func(i, j int) bool {
		return constLabelKeys[i].Key < constLabelKeys[j].Key
	})

	var constLabelValues []metricdata.LabelValue
	for _, k := range constLabelKeys {
		constLabelValues = append(constLabelValues, o.constLabels[k])
	}

	bm.keys = append(constLabelKeys, o.labelkeys...)
	bm.constLabelValues = constLabelValues

	bm.desc''','''	constLabelKeys, constLabelValues := sortedLabels(o.constLabels)
	bm.keys = append(constLabelKeys, o.labelkeys...)
	bm.constLabelValues = constLabelValues

	bm.desc'''),(MR,'func (r *Registry) initBaseMetric','''func sortedLabels(m map[metricdata.LabelKey]metricdata.LabelValue) ([]metricdata.LabelKey, []metricdata.LabelValue) {
	var keys []metricdata.LabelKey
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].Key < keys[j].Key
	})
	var vals []metricdata.LabelValue
	for _, k := range keys {
		vals = append(vals, m[k])
	}
	return keys, vals
}

func (r *Registry) initBaseMetric'''))
r('metric/reg-desc-fields',(MR,'''	bm.desc = metricdata.Descriptor{
		Name:        name,
		Description: o.desc,
		Unit:        o.unit,
		LabelKeys:   bm.keys,
		Type:        bmTypeToMetricType(bm),
	}
	r.baseMetrics''','''	bm.desc.Name = name
	bm.desc.Description = o.desc
	bm.desc.Unit = o.unit
	bm.desc.LabelKeys = bm.keys
	bm.desc.Type = bmTypeToMetricType(bm)
	r.baseMetrics'''))
r('metric/reg-types-group',(MR,'''	switch bm.bmType {
	case derivedGaugeFloat64:
		return metricdata.TypeGaugeFloat64
	case derivedGaugeInt64:
		return metricdata.TypeGaugeInt64
	case gaugeFloat64:
		return metricdata.TypeGaugeFloat64
	case gaugeInt64:
		return metricdata.TypeGaugeInt64
	case derivedCumulativeFloat64:
		return metricdata.TypeCumulativeFloat64
	case derivedCumulativeInt64:
		return metricdata.TypeCumulativeInt64
	case cumulativeFloat64:
		return metricdata.TypeCumulativeFloat64
	case cumulativeInt64:
		return metricdata.TypeCumulativeInt64
	default:
''','''	switch bm.bmType {
	case gaugeFloat64, derivedGaugeFloat64:
		return metricdata.TypeGaugeFloat64
	case gaugeInt64, derivedGaugeInt64:
		return metricdata.TypeGaugeInt64
	case cumulativeFloat64, derivedCumulativeFloat64:
		return metricdata.TypeCumulativeFloat64
	case cumulativeInt64, derivedCumulativeInt64:
		return metricdata.TypeCumulativeInt64
	default:
'''))
r('metric/reg-types-map',(MR,'''	switch bm.bmType {
	case derivedGaugeFloat64:
		return metricdata.TypeGaugeFloat64
	case derivedGaugeInt64:
		return metricdata.TypeGaugeInt64
	case gaugeFloat64:
		return metricdata.TypeGaugeFloat64
	case gaugeInt64:
		return metricdata.TypeGaugeInt64
	case derivedCumulativeFloat64:
		return metricdata.TypeCumulativeFloat64
	case derivedCumulativeInt64:
		return metricdata.TypeCumulativeInt64
	case cumulativeFloat64:
		return metricdata.TypeCumulativeFloat64
	case cumulativeInt64:
		return metricdata.TypeCumulativeInt64
	default:
		panic("unsupported metric type")
	}
}
''','''	t, ok := metricTypes[bm.bmType]
	if !ok {
		panic("unsupported metric type")
	}
	return t
}

var metricTypes = map[baseMetricType]metricdata.Type{
	gaugeInt64:               metricdata.TypeGaugeInt64,
	gaugeFloat64:             metricdata.TypeGaugeFloat64,
	derivedGaugeInt64:        metricdata.TypeGaugeInt64,
	derivedGaugeFloat64:      metricdata.TypeGaugeFloat64,
	cumulativeInt64:          metricdata.TypeCumulativeInt64,
	cumulativeFloat64:        metricdata.TypeCumulativeFloat64,
	derivedCumulativeInt64:   metricdata.TypeCumulativeInt64,
	derivedCumulativeFloat64: metricdata.TypeCumulativeFloat64,
}
'''))
r('metric/reg-read-nil',(MR,'''	ms := []*metricdata.Metric{}
	r.baseMetrics.Range(func(k, v interface{}) bool {
		bm := v.(*baseMetric)
		ms = append(ms, bm.read())
		return true
	})
''','''	ms := make([]*metricdata.Metric, 0)
	r.baseMetrics.Range(func(_, v interface{}) bool {
		ms = append(ms, v.(*baseMetric).read())
		return true
	})
'''))
r('metric/reg-opts-value',(MR,'''	o := &metricOptions{}
	for _, mo := range mos {
		mo(o)
	}
	return o
''','''	var o metricOptions
	for i := range mos {
		mos[i](&o)
	}
	return &o
'''))
r('metric/mgr-init',(MP,'''		prodMgr = &Manager{}
		prodMgr.producers = make(map[Producer]struct{})
''','''		prodMgr = &Manager{producers: map[Producer]struct{}{}}
'''))
r('metric/mgr-nodefer',(MP,'''	pm.mu.Lock()
	defer pm.mu.Unlock()
	pm.producers[producer] = struct{}{}
''','''	pm.mu.Lock()
	pm.producers[producer] = struct{}{}
	pm.mu.Unlock()
'''))
r('metric/mgr-getall-append',(MP,'''	pm.mu.Lock()
	defer pm.mu.Unlock()
	producers := make([]Producer, len(pm.producers))
	i := 0
	for producer := range pm.producers {
		producers[i] = producer
		i++
	}
	return producers
''','''	pm.mu.RLock()
	defer pm.mu.RUnlock()
	producers := make([]Producer, 0, len(pm.producers))
	for producer := range pm.producers {
		producers = append(producers, producer)
	}
	return producers
'''))
r('metric/mgr-nonnil',(MP,'''	if producer == nil {
		return
	}
	pm.mu.Lock()
	defer pm.mu.Unlock()
	delete(pm.producers, producer)
''','''	if producer != nil {
		pm.mu.Lock()
		defer pm.mu.Unlock()
		delete(pm.producers, producer)
	}
'''))
r('metric/reader-new',(ME,'''	reader := &Reader{defaultSampler, defaultSpanName}
	if opts.SpanName != "" {
		reader.spanName = opts.SpanName
	}
	return reader
''','''	if opts.SpanName == "" {
		opts.SpanName = defaultSpanName
	}
	return &Reader{sampler: defaultSampler, spanName: opts.SpanName}
'''))
r('metric/reader-interval-helper',(ME,'''	var reportingInterval = defaultReportingDuration
	if ir.ReportingInterval != 0 {
		if ir.ReportingInterval < minimumReportingDuration {
			return errReportingIntervalTooLow
		}
		reportingInterval = ir.ReportingInterval
	}
''','''	reportingInterval := ir.ReportingInterval
	switch {
	case reportingInterval == 0:
		reportingInterval = defaultReportingDuration
	case reportingInterval < minimumReportingDuration:
		return errReportingIntervalTooLow
	}
'''))
r('metric/reader-run-args',(ME,'''	go ir.startInternal()
''','''	go ir.run(ir.timer, ir.quit, ir.done)
'''),(ME,'''func (ir *IntervalReader) startInternal() {
	for {
		select {
		case <-ir.timer.C:
			ir.reader.ReadAndExport(ir.exporter)
		case <-ir.quit:
			ir.timer.Stop()
			ir.done <- true
			return
''','''func (ir *IntervalReader) run(timer *time.Ticker, quit <-chan bool, done chan<- bool) {
	for {
		select {
		case <-timer.C:
			ir.reader.ReadAndExport(ir.exporter)
		case <-quit:
			timer.Stop()
			done <- true
			return
'''))
r('metric/reader-run-defer',(ME,'''	for {
		select {
		case <-ir.timer.C:
			ir.reader.ReadAndExport(ir.exporter)
		case <-ir.quit:
			ir.timer.Stop()
			ir.done <- true
			return
		}
	}
''','''	running := true
	for running {
		select {
		case <-ir.quit:
			running = false
		case <-ir.timer.C:
			ir.reader.ReadAndExport(ir.exporter)
		}
	}
	ir.timer.Stop()
	ir.done <- true
'''))
r('metric/reader-stop-nested',(ME,'''	if ir.quit == nil {
		return
	}
	ir.quit <- true
	<-ir.done
	close(ir.quit)
	close(ir.done)
	ir.quit = nil
''','''	if ir.quit != nil {
		ir.quit <- true
		<-ir.done
		close(ir.quit)
		close(ir.done)
		ir.quit = nil
	}
'''))
r('metric/reader-started-helper',(ME,'''	if ir.quit != nil {
		return errAlreadyStarted
	}
''','''	if ir.running() {
		return errAlreadyStarted
	}
'''),(ME,'''	// No-op if IntervalReader is not stopped
	if ir.quit != nil {
		return
	}
''','''	// No-op if IntervalReader is not stopped
	if ir.running() {
		return
	}
'''),(ME,'func (ir *IntervalReader) startInternal','''func (ir *IntervalReader) running() bool { return ir.quit != nil }

func (ir *IntervalReader) startInternal'''))
r('metric/reader-read-helper',(ME,'''	producers := metricproducer.GlobalManager().GetAll()
	data := []*metricdata.Metric{}
	for _, producer := range producers {
		data = append(data, producer.Read()...)
	}
	// TODO: [rghetia] add metrics for errors.
	exporter.ExportMetrics(ctx, data)
}
''','''	// TODO: [rghetia] add metrics for errors.
	exporter.ExportMetrics(ctx, readAll(metricproducer.GlobalManager()))
}

func readAll(m *metricproducer.Manager) []*metricdata.Metric {
	data := []*metricdata.Metric{}
	for _, producer := range m.GetAll() {
		data = append(data, producer.Read()...)
	}
	return data
}
'''))
r('metric/reader-read-inner',(ME,'''		data = append(data, producer.Read()...)
''','''		for _, m := range producer.Read() {
			data = append(data, m)
		}
'''))

# ---- ochttp ----
HS='plugin/ochttp/server.go'; HT='plugin/ochttp/trace.go'; HC='plugin/ochttp/client.go'; HCS='plugin/ochttp/client_stats.go'; HW='plugin/ochttp/wrapped_body.go'; HR='plugin/ochttp/route.go'
r('http/serve-order',(HS,'''	handler := h.Handler
	if handler == nil {
		handler = http.DefaultServeMux
	}
	r = r.WithContext(context.WithValue(r.Context(), addedTagsKey{}, &tags))
	handler.ServeHTTP(w, r)
}
''','''	r = r.WithContext(context.WithValue(r.Context(), addedTagsKey{}, &tags))
	h.handler().ServeHTTP(w, r)
}

func (h *Handler) handler() http.Handler {
	if h.Handler != nil {
		return h.Handler
	}
	return http.DefaultServeMux
}
'''))
r('http/serve-onedefer',(HS,'''	r, traceEnd := h.startTrace(w, r)
	defer traceEnd()
	w, statsEnd := h.startStats(w, r)
	defer statsEnd(&tags)
''','''	r, traceEnd := h.startTrace(w, r)
	w, statsEnd := h.startStats(w, r)
	defer func() {
		statsEnd(&tags)
		traceEnd()
	}()
'''))
r('http/trace-name-helper',(HS,'''	var name string
	if h.FormatSpanName == nil {
		name = spanNameFromURL(r)
	} else {
		name = h.FormatSpanName(r)
	}
	ctx := r.Context()

	startOpts := h.StartOptions
	if h.GetStartOptions != nil {
		startOpts = h.GetStartOptions(r)
	}
''','''	name := h.spanName(r)
	ctx := r.Context()
	startOpts := h.startOptions(r)
'''),(HS,'func (h *Handler) extractSpanContext','''func (h *Handler) spanName(r *http.Request) string {
	if f := h.FormatSpanName; f != nil {
		return f(r)
	}
	return spanNameFromURL(r)
}

func (h *Handler) startOptions(r *http.Request) trace.StartOptions {
	if f := h.GetStartOptions; f != nil {
		return f(r)
	}
	return h.StartOptions
}

func (h *Handler) extractSpanContext'''))
r('http/trace-health-helper',(HS,'''	if h.IsHealthEndpoint != nil && h.IsHealthEndpoint(r) || isHealthEndpoint(r.URL.Path) {
		return r, func() {}
	}
''','''	if h.untraced(r) {
		return r, func() {}
	}
'''),(HS,'func (h *Handler) extractSpanContext','''func (h *Handler) untraced(r *http.Request) bool {
	if isHealthEndpoint(r.URL.Path) {
		return true
	}
	return h.IsHealthEndpoint != nil && h.IsHealthEndpoint(r)
}

func (h *Handler) extractSpanContext'''))
r('http/trace-opts-slice',(HS,'''	if ok && !h.IsPublicEndpoint {
		ctx, span = trace.StartSpanWithRemoteParent(ctx, name, sc,
			trace.WithSampler(startOpts.Sampler),
			trace.WithSpanKind(trace.SpanKindServer))
	} else {
		ctx, span = trace.StartSpan(ctx, name,
			trace.WithSampler(startOpts.Sampler),
			trace.WithSpanKind(trace.SpanKindServer),
		)
''','''	opts := []trace.StartOption{
		trace.WithSampler(startOpts.Sampler),
		trace.WithSpanKind(trace.SpanKindServer),
	}
	if ok && !h.IsPublicEndpoint {
		ctx, span = trace.StartSpanWithRemoteParent(ctx, name, sc, opts...)
	} else {
		ctx, span = trace.StartSpan(ctx, name, opts...)
'''))
r('http/trace-split',(HS,'''	if ok && !h.IsPublicEndpoint {
		ctx, span''','''	switch {
	case ok && !h.IsPublicEndpoint:
		ctx, span'''),(HS,'''	} else {
		ctx, span = trace.StartSpan(ctx, name,
			trace.WithSampler(startOpts.Sampler),
			trace.WithSpanKind(trace.SpanKindServer),
		)
		if ok {
			span.AddLink(trace.Link{
				TraceID:    sc.TraceID,
				SpanID:     sc.SpanID,
				Type:       trace.LinkTypeParent,
				Attributes: nil,
			})
		}
	}
''','''	default:
		ctx, span = trace.StartSpan(ctx, name, trace.WithSampler(startOpts.Sampler), trace.WithSpanKind(trace.SpanKindServer))
		if ok {
			link := trace.Link{TraceID: sc.TraceID, SpanID: sc.SpanID, Type: trace.LinkTypeParent}
			span.AddLink(link)
		}
	}
'''))
r('http/trace-body',(HS,'''	if r.Body == nil || r.Body == http.NoBody {
		// TODO: Handle cases where ContentLength is not set.
	} else if r.ContentLength > 0 {
		span.AddMessageReceiveEvent''','''	if hasBody(r) && r.ContentLength > 0 {
		span.AddMessageReceiveEvent'''),(HS,'func (h *Handler) extractSpanContext','''func hasBody(r *http.Request) bool {
	return r.Body != nil && r.Body != http.NoBody
}

func (h *Handler) extractSpanContext'''))
r('http/extract-format',(HS,'''	if h.Propagation == nil {
		return defaultFormat.SpanContextFromRequest(r)
	}
	return h.Propagation.SpanContextFromRequest(r)
''','''	format := h.Propagation
	if format == nil {
		format = defaultFormat
	}
	return format.SpanContextFromRequest(r)
'''))
r('http/stats-size-switch',(HS,'''	if r.Body == nil || r.Body == http.NoBody {
		// TODO: Handle cases where ContentLength is not set.
		track.reqSize = -1
	} else if r.ContentLength > 0 {
		track.reqSize = r.ContentLength
	}
''','''	switch {
	case r.Body == nil, r.Body == http.NoBody:
		track.reqSize = -1
	case r.ContentLength > 0:
		track.reqSize = r.ContentLength
	}
'''))
r('http/stats-size-helper',(HS,'''	track := &trackingResponseWriter{
		start:  time.Now(),
		ctx:    ctx,
		writer: w,
	}
	if r.Body == nil || r.Body == http.NoBody {
		// TODO: Handle cases where ContentLength is not set.
		track.reqSize = -1
	} else if r.ContentLength > 0 {
		track.reqSize = r.ContentLength
	}
''','''	track := &trackingResponseWriter{
		start:   time.Now(),
		ctx:     ctx,
		writer:  w,
		reqSize: requestSize(r),
	}
'''),(HS,'type trackingResponseWriter struct','''// requestSize is the size of the body, or -1 if there is none.
func requestSize(r *http.Request) int64 {
	if r.Body == nil || r.Body == http.NoBody {
		return -1
	}
	if r.ContentLength < 0 {
		return 0
	}
	return r.ContentLength
}

type trackingResponseWriter struct'''))
r('http/end-helper',(HS,'''	t.endOnce.Do(func() {
		if t.statusCode == 0 {
			t.statusCode = 200
		}
''','''	t.endOnce.Do(func() { t.finish(tags) })
}

func (t *trackingResponseWriter) finish(tags *addedTags) {
	{
		if t.statusCode == 0 {
			t.statusCode = http.StatusOK
		}
'''),(HS,'''		stats.RecordWithTags(t.ctx, allTags, m...)
	})
}
''','''		stats.RecordWithTags(t.ctx, allTags, m...)
	}
}
'''))
r('http/end-tags-append',(HS,'''		allTags := make([]tag.Mutator, len(tags.t)+1)
		allTags[0] = tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))
		copy(allTags[1:], tags.t)
		stats.RecordWithTags(t.ctx, allTags, m...)
''','''		allTags := []tag.Mutator{tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))}
		allTags = append(allTags, tags.t...)
		stats.RecordWithTags(t.ctx, allTags, m...)
'''))
r('http/end-measure-order',(HS,'''		m := []stats.Measurement{
			ServerLatency.M(float64(time.Since(t.start)) / float64(time.Millisecond)),
			ServerResponseBytes.M(t.respSize),
		}
		if t.reqSize >= 0 {
			m = append(m, ServerRequestBytes.M(t.reqSize))
		}
''','''		var m []stats.Measurement
		if t.reqSize >= 0 {
			m = append(m, ServerRequestBytes.M(t.reqSize))
		}
		latency := time.Since(t.start)
		m = append(m, ServerResponseBytes.M(t.respSize), ServerLatency.M(float64(latency)/float64(time.Millisecond)))
'''))
r('http/end-local-status',(HS,'''		if t.statusCode == 0 {
			t.statusCode = 200
		}

		span := trace.FromContext(t.ctx)
		span.SetStatus(TraceStatus(t.statusCode, t.statusLine))
		span.AddAttributes(trace.Int64Attribute(StatusCodeAttribute, int64(t.statusCode)))
''','''		code := t.statusCode
		if code == 0 {
			code = http.StatusOK
		}

		span := trace.FromContext(t.ctx)
		span.AddAttributes(trace.Int64Attribute(StatusCodeAttribute, int64(code)))
		span.SetStatus(TraceStatus(code, t.statusLine))
'''),(HS,'tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))','tag.Upsert(StatusCode, strconv.Itoa(code))'))
r('http/write-inline',(HS,'''	t.headerSent(http.StatusOK)
	n, err := t.writer.Write(data)
	t.bodySent(int64(n))
	return n, err
''','''	t.headerSent(http.StatusOK)
	n, err := t.writer.Write(data)
	t.respSize += int64(n)
	// Add message event for request bytes sent.
	trace.FromContext(t.ctx).AddMessageSendEvent(0 /* TODO: messageID */, int64(n), -1)
	return n, err
'''))
r('http/write-defer',(HS,'''	t.headerSent(http.StatusOK)
	n, err := t.writer.Write(data)
	t.bodySent(int64(n))
	return n, err
''','''	t.headerSent(http.StatusOK)
	n, err := t.writer.Write(data)
	defer t.bodySent(int64(n))
	return n, err
'''))
r('http/header-nested',(HS,'''	informational := statusCode < 200 && statusCode != http.StatusSwitchingProtocols
	if t.statusCode != 0 || informational {
		return
	}
	t.statusCode = statusCode
	t.statusLine = http.StatusText(t.statusCode)
''','''	if t.statusCode == 0 && (statusCode >= 200 || statusCode == http.StatusSwitchingProtocols) {
		t.statusCode = statusCode
		t.statusLine = http.StatusText(statusCode)
	}
'''))
r('http/header-helper',(HS,'''	informational := statusCode < 200 && statusCode != http.StatusSwitchingProtocols
	if t.statusCode != 0 || informational {
		return
	}
	t.statusCode''','''	if t.statusCode != 0 {
		return
	}
	if isInformational(statusCode) {
		return
	}
	t.statusCode'''),(HS,'type trackingReaderFrom struct','''func isInformational(code int) bool {
	return code != 101 && code <= 199
}

type trackingReaderFrom struct'''))
r('http/wrap-nodefault',(HS,'''	if i3 {
		fl = trackingFlusher{t, fl}
	}
	if i4 {
		rf = trackingReaderFrom{t, rf}
	}
''','''	if i4 {
		rf = trackingReaderFrom{t: t, ReaderFrom: rf}
	}
	if i3 {
		fl = trackingFlusher{t: t, Flusher: fl}
	}
'''))
r('http/rt-ctx-once',(HT,'''	if t.newClientTrace != nil {
		req = req.WithContext(httptrace.WithClientTrace(ctx, t.newClientTrace(req, span)))
	} else {
		req = req.WithContext(ctx)
	}
''','''	if t.newClientTrace != nil {
		ctx = httptrace.WithClientTrace(ctx, t.newClientTrace(req, span))
	}
	req = req.WithContext(ctx)
'''))
r('http/rt-header-helper',(HT,'''		header := make(http.Header)
		for k, v := range req.Header {
			header[k] = v
		}
		req.Header = header
''','''		req.Header = copyHeader(req.Header)
'''),(HT,'type bodyTracker struct','''func copyHeader(h http.Header) http.Header {
	out := make(http.Header, len(h))
	for k := range h {
		out[k] = h[k]
	}
	return out
}

type bodyTracker struct'''))
r('http/rt-header-clone',(HT,'''		header := make(http.Header)
		for k, v := range req.Header {
			header[k] = v
		}
		req.Header = header
''','''		header := req.Header.Clone()
		if header == nil {
			header = make(http.Header)
		}
		req.Header = header
'''))
r('http/rt-resp-helper',(HT,'''	span.AddAttributes(responseAttrs(resp)...)
	span.SetStatus(TraceStatus(resp.StatusCode, resp.Status))

	if resp.Body == nil {
		span.End()
		return resp, err
	}

	// span.End() will be invoked after
	// a read from resp.Body returns io.EOF or when
	// resp.Body.Close() is invoked.
	bt := &bodyTracker{rc: resp.Body, span: span}
	resp.Body = wrappedBody(bt, resp.Body)
	return resp, err
}
''','''	trackResponse(resp, span)
	return resp, nil
}

func trackResponse(resp *http.Response, span *trace.Span) {
	span.SetStatus(TraceStatus(resp.StatusCode, resp.Status))
	span.AddAttributes(responseAttrs(resp)...)
	if body := resp.Body; body != nil {
		// span.End() will be invoked after
		// a read from resp.Body returns io.EOF or when
		// resp.Body.Close() is invoked.
		resp.Body = wrappedBody(&bodyTracker{rc: body, span: span}, body)
	} else {
		span.End()
	}
}
'''))
r('http/bt-read-if',(HT,'''	switch err {
	case nil:
		return n, nil
	case io.EOF:
		bt.span.End()
	default:
		// For all other errors, set the span status
		bt.span.SetStatus(trace.Status{
			// Code 2 is the error code for Internal server error.
			Code:    2,
			Message: err.Error(),
		})
	}
	return n, err
''','''	if err == io.EOF {
		bt.span.End()
	} else if err != nil {
		// For all other errors, set the span status
		bt.span.SetStatus(trace.Status{Code: trace.StatusCodeUnknown, Message: err.Error()})
	}
	return n, err
'''))
r('http/bt-close-defer',(HT,'''	bt.span.End()
	return bt.rc.Close()
''','''	defer bt.span.End()
	return bt.rc.Close()
'''))
r('http/attrs-literal',(HT,'''	userAgent := r.UserAgent()

	attrs := make([]trace.Attribute, 0, 5)
	attrs = append(attrs,
		trace.StringAttribute(PathAttribute, r.URL.Path),
		trace.StringAttribute(URLAttribute, r.URL.String()),
		trace.StringAttribute(HostAttribute, r.Host),
		trace.StringAttribute(MethodAttribute, r.Method),
	)

	if userAgent != "" {
		attrs''','''	attrs := []trace.Attribute{
		trace.StringAttribute(PathAttribute, r.URL.Path),
		trace.StringAttribute(URLAttribute, r.URL.String()),
		trace.StringAttribute(HostAttribute, r.Host),
		trace.StringAttribute(MethodAttribute, r.Method),
	}

	if userAgent := r.UserAgent(); len(userAgent) > 0 {
		attrs'''))
r('http/status-table',(HT,'''	var code int32
	if httpStatusCode < 200 || httpStatusCode >= 400 {
		code = trace.StatusCodeUnknown
	}
	switch httpStatusCode {
	case 499:
		code = trace.StatusCodeCancelled
	case http.StatusBadRequest:
		code = trace.StatusCodeInvalidArgument
	case http.StatusUnprocessableEntity:
		code = trace.StatusCodeInvalidArgument
''','''	code := int32(trace.StatusCodeOK)
	switch httpStatusCode {
	default:
		if httpStatusCode < 200 || httpStatusCode > 399 {
			code = trace.StatusCodeUnknown
		}
	case 499:
		code = trace.StatusCodeCancelled
	case http.StatusBadRequest, http.StatusUnprocessableEntity:
		code = trace.StatusCodeInvalidArgument
'''))
r('http/health-return',(HT,'''	if path == "/healthz" || path == "/_ah/health" {
		return true
	}
	return false
''','''	switch path {
	case "/healthz", "/_ah/health":
		return true
	}
	return false
'''))
r('http/client-helpers',(HC,'''	format := t.Propagation
	if format == nil {
		format = defaultFormat
	}
	spanNameFormatter := t.FormatSpanName
	if spanNameFormatter == nil {
		spanNameFormatter = spanNameFromURL
	}

	startOpts := t.StartOptions
	if t.GetStartOptions != nil {
		startOpts = t.GetStartOptions(req)
	}

	rt = &traceTransport{
		base:   rt,
		format: format,
		startOptions: trace.StartOptions{
			Sampler:  startOpts.Sampler,
			SpanKind: trace.SpanKindClient,
		},
		formatSpanName: spanNameFormatter,
		newClientTrace: t.NewClientTrace,
	}
	rt = statsTransport{base: rt}
	return rt.RoundTrip(req)
}
''','''	tt := &traceTransport{
		base:           rt,
		format:         t.Propagation,
		startOptions:   t.StartOptions,
		formatSpanName: t.FormatSpanName,
		newClientTrace: t.NewClientTrace,
	}
	if t.GetStartOptions != nil {
		tt.startOptions = t.GetStartOptions(req)
	}
	tt.startOptions.SpanKind = trace.SpanKindClient
	if tt.format == nil {
		tt.format = defaultFormat
	}
	if tt.formatSpanName == nil {
		tt.formatSpanName = spanNameFromURL
	}
	return statsTransport{base: tt}.RoundTrip(req)
}
'''))
r('http/cstats-helper',(HCS,'''	if err != nil {
		track.statusCode = http.StatusInternalServerError
		track.end()
	} else {
		track.statusCode = resp.StatusCode
		if req.Method != "HEAD" {
			track.respContentLength = resp.ContentLength
		}
		if resp.Body == nil {
			track.end()
		} else {
			track.body = resp.Body
			resp.Body = wrappedBody(track, resp.Body)
		}
	}
	return resp, err
''','''	if err != nil {
		track.statusCode = http.StatusInternalServerError
		track.end()
		return resp, err
	}
	track.statusCode = resp.StatusCode
	if req.Method != http.MethodHead {
		track.respContentLength = resp.ContentLength
	}
	if resp.Body == nil {
		track.end()
		return resp, nil
	}
	track.body = resp.Body
	resp.Body = wrappedBody(track, track.body)
	return resp, nil
'''))
r('http/cstats-end-helper',(HCS,'''		bodySize := atomic.LoadInt64(&t.respSize)
		respSize := bodySize
		if bodySize == 0 && t.respContentLength > 0 {
			respSize = t.respContentLength
		}
		m := []stats.Measurement{
			ClientSentBytes.M(t.reqSize),
			ClientReceivedBytes.M(respSize),
''','''		bodySize := atomic.LoadInt64(&t.respSize)
		m := []stats.Measurement{
			ClientSentBytes.M(t.reqSize),
			ClientReceivedBytes.M(t.received(bodySize)),
'''),(HCS,'func (t *tracker) Read(','''func (t *tracker) received(body int64) int64 {
	if body != 0 || t.respContentLength <= 0 {
		return body
	}
	return t.respContentLength
}

func (t *tracker) Read('''))
r('http/cstats-code-var',(HCS,'''		stats.RecordWithTags(t.ctx, []tag.Mutator{
			tag.Upsert(StatusCode, strconv.Itoa(t.statusCode)),
			tag.Upsert(KeyClientStatus, strconv.Itoa(t.statusCode)),
		}, m...)
''','''		code := strconv.Itoa(t.statusCode)
		mutators := []tag.Mutator{
			tag.Upsert(StatusCode, code),
			tag.Upsert(KeyClientStatus, code),
		}
		stats.RecordWithTags(t.ctx, mutators, m...)
'''))
r('http/cstats-read-if',(HCS,'''	switch err {
	case nil:
		return n, nil
	case io.EOF:
		t.end()
	}
	return n, err
''','''	if err == io.EOF {
		t.end()
	}
	return n, err
'''))
r('http/cstats-tags-slice',(HCS,'''	ctx, _ := tag.New(req.Context(),
		tag.Upsert(KeyClientHost, req.Host),
		tag.Upsert(Host, req.Host),
		tag.Upsert(KeyClientPath, req.URL.Path),
		tag.Upsert(Path, req.URL.Path),
		tag.Upsert(KeyClientMethod, req.Method),
		tag.Upsert(Method, req.Method))
''','''	host, path, method := req.Host, req.URL.Path, req.Method
	mutators := []tag.Mutator{
		tag.Upsert(KeyClientHost, host),
		tag.Upsert(KeyClientPath, path),
		tag.Upsert(KeyClientMethod, method),
		tag.Upsert(Host, host),
		tag.Upsert(Path, path),
		tag.Upsert(Method, method),
	}
	ctx, _ := tag.New(req.Context(), mutators...)
'''))
r('http/wrapped-if',(HW,'''	switch {
	case !i0:
		return struct {
			io.ReadCloser
		}{wrapper}

	case i0:
		return struct {
			io.ReadCloser
			io.Writer
		}{wrapper, wr}
	default:
		return struct {
			io.ReadCloser
		}{wrapper}
	}
''','''	if !i0 {
		return wrapper
	}
	return struct {
		io.ReadCloser
		io.Writer
	}{wrapper, wr}
'''))
r('http/route-helper',(HR,'''	if a, ok := ctx.Value(addedTagsKey{}).(*addedTags); ok {
		a.t = append(a.t, tag.Upsert(KeyServerRoute, route))
	}
''','''	addTags(ctx, tag.Upsert(KeyServerRoute, route))
'''),(HR,'''	if a, ok := r.Context().Value(addedTagsKey{}).(*addedTags); ok {
		a.t = append(a.t, tags...)
	}
}
''','''	addTags(r.Context(), tags...)
}

func addTags(ctx context.Context, tags ...tag.Mutator) {
	a, ok := ctx.Value(addedTagsKey{}).(*addedTags)
	if !ok {
		return
	}
	a.t = append(a.t, tags...)
}
'''))
r('http/route-mutator',(HR,'''		addRoute := []tag.Mutator{tag.Upsert(KeyServerRoute, route)}
		ctx, _ := tag.New(r.Context(), addRoute...)
		r = r.WithContext(ctx)
		handler.ServeHTTP(w, r)
		return addRoute
''','''		m := tag.Upsert(KeyServerRoute, route)
		ctx, _ := tag.New(r.Context(), m)
		handler.ServeHTTP(w, r.WithContext(ctx))
		return []tag.Mutator{m}
'''))
GT='plugin/ocgrpc/trace_common.go'; GS='plugin/ocgrpc/stats_common.go'; GCS='plugin/ocgrpc/client_stats_handler.go'; GSS='plugin/ocgrpc/server_stats_handler.go'
r('grpc/end-early',(GT,'''		if rs.Error != nil {
			s, ok := status.FromError(rs.Error)
			if ok {
				span.SetStatus(trace.Status{Code: int32(s.Code()), Message: s.Message()})
			} else {
				span.SetStatus(trace.Status{Code: int32(codes.Internal), Message: rs.Error.Error()})
			}
		}
		span.End()
	}
}
''','''		setErrorStatus(span, rs.Error)
		span.End()
	}
}

func setErrorStatus(span *trace.Span, err error) {
	if err == nil {
		return
	}
	st := trace.Status{Code: int32(codes.Internal), Message: err.Error()}
	if s, ok := status.FromError(err); ok {
		st = trace.Status{Code: int32(s.Code()), Message: s.Message()}
	}
	span.SetStatus(st)
}
'''))
r('grpc/ifs',(GT,'''	switch rs := rs.(type) {
	case *stats.Begin:
		span.AddAttributes(
			trace.BoolAttribute("Client", rs.Client),
			trace.BoolAttribute("FailFast", rs.FailFast))
	case *stats.InPayload:
''','''	if b, ok := rs.(*stats.Begin); ok {
		attrs := []trace.Attribute{
			trace.BoolAttribute("Client", b.Client),
			trace.BoolAttribute("FailFast", b.FailFast),
		}
		span.AddAttributes(attrs...)
		return
	}
	switch rs := rs.(type) {
	case *stats.InPayload:
'''))
r('grpc/end-defer',(GT,'''		if rs.Error != nil {
			s, ok''','''		defer span.End()
		if rs.Error != nil {
			s, ok'''),(GT,'''			}
		}
		span.End()
''','''			}
		}
'''))
r('grpc/spanname',(GT,'''	name := strings.TrimPrefix(rti.FullMethodName, "/")
	return strings.Replace(name, "/", ".", -1)
''','''	return strings.ReplaceAll(strings.TrimPrefix(rti.FullMethodName, "/"), "/", ".")
'''))
r('grpc/spanname-hasprefix',(GT,'''	name := strings.TrimPrefix(rti.FullMethodName, "/")
	return''','''	name := rti.FullMethodName
	if strings.HasPrefix(name, "/") {
		name = name[1:]
	}
	return'''))
r('grpc/server-tag-flow',(GT,'''	traceContext := md[traceContextKey]
	var (
		parent     trace.SpanContext
		haveParent bool
	)
	if len(traceContext) > 0 {
''','''	opts := []trace.StartOption{
		trace.WithSpanKind(trace.SpanKindServer),
		trace.WithSampler(s.StartOptions.Sampler),
	}
	var (
		parent     trace.SpanContext
		haveParent bool
	)
	if traceContext := md[traceContextKey]; len(traceContext) != 0 {
'''),(GT,'''			ctx, _ := trace.StartSpanWithRemoteParent(ctx, name, parent,
				trace.WithSpanKind(trace.SpanKindServer),
				trace.WithSampler(s.StartOptions.Sampler),
			)
			return ctx
''','''			ctx, _ = trace.StartSpanWithRemoteParent(ctx, name, parent, opts...)
			return ctx
'''),(GT,'''	ctx, span := trace.StartSpan(ctx, name,
		trace.WithSpanKind(trace.SpanKindServer),
		trace.WithSampler(s.StartOptions.Sampler))
	if haveParent''','''	ctx, span := trace.StartSpan(ctx, name, opts...)
	if haveParent'''))
r('grpc/parent-helper',(GT,'''	md, _ := metadata.FromIncomingContext(ctx)
	name := spanName(rti)
	traceContext := md[traceContextKey]
	var (
		parent     trace.SpanContext
		haveParent bool
	)
	if len(traceContext) > 0 {
''','''	name := spanName(rti)
	parent, haveParent := incomingParent(ctx)
	if haveParent && !s.IsPublicEndpoint {
		ctx, _ := trace.StartSpanWithRemoteParent(ctx, name, parent,
			trace.WithSpanKind(trace.SpanKindServer),
			trace.WithSampler(s.StartOptions.Sampler),
		)
		return ctx
	}
	ctx, span := trace.StartSpan(ctx, name,
		trace.WithSpanKind(trace.SpanKindServer),
		trace.WithSampler(s.StartOptions.Sampler))
	if haveParent {
		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeParent})
	}
	return ctx
}

func incomingParent(ctx context.Context) (trace.SpanContext, bool) {
	md, ok := metadata.FromIncomingContext(ctx)
	if !ok || len(md[traceContextKey]) == 0 {
		return trace.SpanContext{}, false
	}
	return propagation.FromBinary([]byte(md[traceContextKey][0]))
}

func (s *ServerHandler) oldTraceTagRPC(ctx context.Context, name string, traceContext []string) context.Context {
	var (
		parent     trace.SpanContext
		haveParent bool
	)
	if len(traceContext) > 0 {
'''))
r('grpc/link-var',(GT,'''		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeParent})
''','''		var l trace.Link
		l.TraceID, l.SpanID = parent.TraceID, parent.SpanID
		l.Type = trace.LinkTypeParent
		span.AddLink(l)
'''))
r('grpc/client-trace-inline',(GT,'''	name := spanName(rti)
	ctx, span := trace.StartSpan(ctx, name,
		trace.WithSampler(c.StartOptions.Sampler),
		trace.WithSpanKind(trace.SpanKindClient)) // span is ended by traceHandleRPC
	traceContextBinary := propagation.Binary(span.SpanContext())
	return metadata.AppendToOutgoingContext(ctx, traceContextKey, string(traceContextBinary))
''','''	newCtx, span := trace.StartSpan(ctx, spanName(rti),
		trace.WithSpanKind(trace.SpanKindClient),
		trace.WithSampler(c.StartOptions.Sampler))
	sc := span.SpanContext()
	header := string(propagation.Binary(sc))
	return metadata.AppendToOutgoingContext(newCtx, traceContextKey, header)
'''))
r('grpc/data-helper',(GS,'''	d, ok := ctx.Value(rpcDataKey).(*rpcData)
	if !ok {
		if grpclog.V(2) {
			grpclog.Infoln("Failed to retrieve *rpcData from context.")
		}
		return
	}

	atomic.AddInt64(&d.sentBytes, int64(s.Length))
	atomic.AddInt64(&d.sentCount, 1)
}
''','''	d := rpcDataFrom(ctx)
	if d == nil {
		return
	}
	d.sent(int64(s.Length))
}

func (d *rpcData) sent(n int64) {
	atomic.AddInt64(&d.sentCount, 1)
	atomic.AddInt64(&d.sentBytes, n)
}

// rpcDataFrom returns the data of the RPC in ctx, or nil.
func rpcDataFrom(ctx context.Context) *rpcData {
	d, ok := ctx.Value(rpcDataKey).(*rpcData)
	if !ok {
		if grpclog.V(2) {
			grpclog.Infoln("Failed to retrieve *rpcData from context.")
		}
		return nil
	}
	return d
}
'''))
r('grpc/begin-vars',(GS,'''	if s.IsClient() {
		ocstats.RecordWithOptions(ctx,
			ocstats.WithTags(tag.Upsert(KeyClientMethod, methodName(d.method))),
			ocstats.WithMeasurements(ClientStartedRPCs.M(1)))
	} else {
		ocstats.RecordWithOptions(ctx,
			ocstats.WithTags(tag.Upsert(KeyServerMethod, methodName(d.method))),
			ocstats.WithMeasurements(ServerStartedRPCs.M(1)))
	}
''','''	key, started := KeyServerMethod, ServerStartedRPCs
	if s.Client {
		key, started = KeyClientMethod, ClientStartedRPCs
	}
	ocstats.RecordWithOptions(ctx,
		ocstats.WithTags(tag.Upsert(key, methodName(d.method))),
		ocstats.WithMeasurements(started.M(1)))
'''))
r('grpc/end-split',(GS,'''	if s.Client {
		ocstats.RecordWithOptions(ctx,
			ocstats.WithTags(
				tag.Upsert(KeyClientMethod, methodName(d.method)),
				tag.Upsert(KeyClientStatus, st)),
			ocstats.WithAttachments(attachments),
			ocstats.WithMeasurements(
				ClientSentBytesPerRPC.M(atomic.LoadInt64(&d.sentBytes)),
				ClientSentMessagesPerRPC.M(atomic.LoadInt64(&d.sentCount)),
				ClientReceivedMessagesPerRPC.M(atomic.LoadInt64(&d.recvCount)),
				ClientReceivedBytesPerRPC.M(atomic.LoadInt64(&d.recvBytes)),
				ClientRoundtripLatency.M(latencyMillis)))
	} else {
''','''	if s.Client {
		d.recordClient(ctx, st, latencyMillis, attachments)
	} else {
'''),(GS,'''func statusCodeToString(''','''func (d *rpcData) recordClient(ctx context.Context, st string, latencyMillis float64, attachments metricdata.Attachments) {
	sentBytes, sentCount := atomic.LoadInt64(&d.sentBytes), atomic.LoadInt64(&d.sentCount)
	recvBytes, recvCount := atomic.LoadInt64(&d.recvBytes), atomic.LoadInt64(&d.recvCount)
	ms := []ocstats.Measurement{
		ClientSentBytesPerRPC.M(sentBytes),
		ClientSentMessagesPerRPC.M(sentCount),
		ClientReceivedMessagesPerRPC.M(recvCount),
		ClientReceivedBytesPerRPC.M(recvBytes),
		ClientRoundtripLatency.M(latencyMillis),
	}
	tags := []tag.Mutator{
		tag.Upsert(KeyClientStatus, st),
		tag.Upsert(KeyClientMethod, methodName(d.method)),
	}
	ocstats.RecordWithOptions(ctx,
		ocstats.WithTags(tags...),
		ocstats.WithMeasurements(ms...),
		ocstats.WithAttachments(attachments))
}

func statusCodeToString('''))
r('grpc/status-flow',(GS,'''	var st string
	if s.Error != nil {
		// An error without a status counts as UNKNOWN.
		s, _ := status.FromError(s.Error)
		st = statusCodeToString(s)
	} else {
		st = "OK"
	}
''','''	st := "OK"
	if err := s.Error; err != nil {
		// An error without a status counts as UNKNOWN.
		stat, _ := status.FromError(err)
		st = statusCodeToString(stat)
	}
'''))
r('grpc/status-convert',(GS,'''	var st string
	if s.Error != nil {
		// An error without a status counts as UNKNOWN.
		s, _ := status.FromError(s.Error)
		st = statusCodeToString(s)
	} else {
		st = "OK"
	}
''','''	st := "OK"
	if s.Error != nil {
		st = statusCodeToString(status.Convert(s.Error))
	}
'''))
r('grpc/latency-ms',(GS,'''	latencyMillis := float64(elapsedTime) / float64(time.Millisecond)
''','''	latencyMillis := millis(elapsedTime)
'''),(GS,'''func statusCodeToString(''','''func millis(d time.Duration) float64 {
	return float64(d) / float64(time.Millisecond)
}

func statusCodeToString('''))
r('grpc/latency-1e6',(GS,'''float64(elapsedTime) / float64(time.Millisecond)
''','''float64(elapsedTime.Nanoseconds()) / 1e6
'''))
r('grpc/codes-map',(GS,'''	// see https://github.com/grpc/grpc/blob/master/doc/statuscodes.md
	switch c := s.Code(); c {
	case codes.OK:
		return "OK"
	case codes.Canceled:
		return "CANCELLED"
	case codes.Unknown:
		return "UNKNOWN"
	case codes.InvalidArgument:
		return "INVALID_ARGUMENT"
	case codes.DeadlineExceeded:
		return "DEADLINE_EXCEEDED"
	case codes.NotFound:
		return "NOT_FOUND"
	case codes.AlreadyExists:
		return "ALREADY_EXISTS"
	case codes.PermissionDenied:
		return "PERMISSION_DENIED"
	case codes.ResourceExhausted:
		return "RESOURCE_EXHAUSTED"
	case codes.FailedPrecondition:
		return "FAILED_PRECONDITION"
	case codes.Aborted:
		return "ABORTED"
	case codes.OutOfRange:
		return "OUT_OF_RANGE"
	case codes.Unimplemented:
		return "UNIMPLEMENTED"
	case codes.Internal:
		return "INTERNAL"
	case codes.Unavailable:
		return "UNAVAILABLE"
	case codes.DataLoss:
		return "DATA_LOSS"
	case codes.Unauthenticated:
		return "UNAUTHENTICATED"
	default:
		return "CODE_" + strconv.FormatInt(int64(c), 10)
	}
}
''','''	c := s.Code()
	if name, ok := codeNames[c]; ok {
		return name
	}
	return "CODE_" + strconv.FormatInt(int64(c), 10)
}

// see https://github.com/grpc/grpc/blob/master/doc/statuscodes.md
var codeNames = map[codes.Code]string{
	codes.OK:                 "OK",
	codes.Canceled:           "CANCELLED",
	codes.Unknown:            "UNKNOWN",
	codes.InvalidArgument:    "INVALID_ARGUMENT",
	codes.DeadlineExceeded:   "DEADLINE_EXCEEDED",
	codes.NotFound:           "NOT_FOUND",
	codes.AlreadyExists:      "ALREADY_EXISTS",
	codes.PermissionDenied:   "PERMISSION_DENIED",
	codes.ResourceExhausted:  "RESOURCE_EXHAUSTED",
	codes.FailedPrecondition: "FAILED_PRECONDITION",
	codes.Aborted:            "ABORTED",
	codes.OutOfRange:         "OUT_OF_RANGE",
	codes.Unimplemented:      "UNIMPLEMENTED",
	codes.Internal:           "INTERNAL",
	codes.Unavailable:        "UNAVAILABLE",
	codes.DataLoss:           "DATA_LOSS",
	codes.Unauthenticated:    "UNAUTHENTICATED",
}
'''))
r('grpc/codes-itoa',(GS,'''	default:
		return "CODE_" + strconv.FormatInt(int64(c), 10)
	}
}
''','''	}
	return "CODE_" + strconv.Itoa(int(s.Code()))
}
'''))
r('grpc/attach-flow',(GS,'''	attachments := map[string]interface{}{}
	span := trace.FromContext(ctx)
	if span == nil {
		return attachments
	}
	spanCtx := span.SpanContext()
	if spanCtx.IsSampled() {
		attachments[metricdata.AttachmentKeySpanContext] = spanCtx
	}
	return attachments
''','''	if span := trace.FromContext(ctx); span != nil {
		if sc := span.SpanContext(); sc.IsSampled() {
			return metricdata.Attachments{metricdata.AttachmentKeySpanContext: sc}
		}
	}
	return metricdata.Attachments{}
'''))
r('grpc/statstag-new',(GCS,'''	ts := tag.FromContext(ctx)
	if ts != nil {
		encoded := tag.Encode(ts)
		ctx = stats.SetTags(ctx, encoded)
	}

	return''','''	if ts := tag.FromContext(ctx); ts != nil {
		ctx = stats.SetTags(ctx, tag.Encode(ts))
	}
	return'''))
r('grpc/rpcdata-ctor',(GCS,'''	d := &rpcData{
		startTime: startTime,
		method:    info.FullMethodName,
	}
''','''	d := newRPCData(startTime, info)
'''),(GSS,'''	d := &rpcData{
		startTime: startTime,
		method:    info.FullMethodName,
	}
''','''	d := newRPCData(startTime, info)
'''),(GS,'''func methodName(''','''func newRPCData(start time.Time, info *stats.RPCTagInfo) *rpcData {
	d := new(rpcData)
	d.startTime = start
	d.method = info.FullMethodName
	return d
}

func methodName('''))
r('grpc/propagate-flow',(GSS,'''	buf := stats.Tags(ctx)
	if buf == nil {
		return nil
	}
	propagated, err := tag.Decode(buf)
	if err != nil {
		if grpclog.V(2) {
			grpclog.Warningf("opencensus: Failed to decode tags from gRPC metadata failed to decode: %v", err)
		}
		return nil
	}
	return propagated
''','''	if buf := stats.Tags(ctx); buf != nil {
		m, err := tag.Decode(buf)
		if err == nil {
			return m
		}
		if grpclog.V(2) {
			grpclog.Warningf("opencensus: Failed to decode tags from gRPC metadata failed to decode: %v", err)
		}
	}
	return nil
'''))
r('grpc/server-tag-order',(GSS,'''	propagated := h.extractPropagatedTags(ctx)
	ctx = tag.NewContext(ctx, propagated)
	ctx, _ = tag.New(ctx, tag.Upsert(KeyServerMethod, methodName(info.FullMethodName)))
	return context.WithValue(ctx, rpcDataKey, d)
''','''	ctx = context.WithValue(ctx, rpcDataKey, d)
	ctx = tag.NewContext(ctx, h.extractPropagatedTags(ctx))
	tagged, err := tag.New(ctx, tag.Upsert(KeyServerMethod, methodName(d.method)))
	if err != nil {
		return tagged
	}
	return tagged
'''))
r('grpc/handle-ifelse',(GS,'''	case *stats.OutPayload:
		handleRPCOutPayload(ctx, st)
	case *stats.InPayload:
		handleRPCInPayload(ctx, st)
	case *stats.End:
		handleRPCEnd(ctx, st)
''','''	case *stats.End:
		handleRPCEnd(ctx, st)
	case *stats.InPayload:
		handleRPCInPayload(ctx, st)
	case *stats.OutPayload:
		handleRPCOutPayload(ctx, st)
'''))
RM='plugin/runmetrics/producer.go'; ZR='zpages/rpcz.go'; ZT='zpages/tracez.go'; RES='resource/resource.go'; SA='plugin/ochttp/span_annotating_client_trace.go'
r('run/enable-if',(RM,'''		switch options.UseDerivedCumulative {
		case true:
			producer.memStats, err = newMemStats(producer)
			if err != nil {
				return err
			}
		default:
			producer.deprecatedMemStats, err = newDeprecatedMemStats(producer)
			if err != nil {
				return err
			}
		}
	}
''','''		if options.UseDerivedCumulative {
			producer.memStats, err = newMemStats(producer)
		} else {
			producer.deprecatedMemStats, err = newDeprecatedMemStats(producer)
		}
		if err != nil {
			return err
		}
	}
'''))
r('run/enable-ctor',(RM,'''	producer := &producer{options: options, reg: metric.NewRegistry()}
	var err error

	if options.EnableMemory {
		switch options.UseDerivedCumulative {
		case true:
			producer.memStats, err = newMemStats(producer)
			if err != nil {
				return err
			}
		default:
			producer.deprecatedMemStats, err = newDeprecatedMemStats(producer)
			if err != nil {
				return err
			}
		}
	}

	if options.EnableCPU {
		producer.cpuStats, err = newCPUStats(producer)
		if err != nil {
			return err
		}
	}

	enableMutex.Lock()
	defer enableMutex.Unlock()

	metricproducer.GlobalManager().DeleteProducer(enabledProducer)
	metricproducer.GlobalManager().AddProducer(producer)
	enabledProducer = producer

	return nil
}
''','''	p, err := newProducer(options)
	if err != nil {
		return err
	}
	replace(p)
	return nil
}

func newProducer(options RunMetricOptions) (*producer, error) {
	p := &producer{options: options, reg: metric.NewRegistry()}
	var err error
	if options.EnableMemory && options.UseDerivedCumulative {
		if p.memStats, err = newMemStats(p); err != nil {
			return nil, err
		}
	}
	if options.EnableMemory && !options.UseDerivedCumulative {
		if p.deprecatedMemStats, err = newDeprecatedMemStats(p); err != nil {
			return nil, err
		}
	}
	if options.EnableCPU {
		if p.cpuStats, err = newCPUStats(p); err != nil {
			return nil, err
		}
	}
	return p, nil
}

// replace makes p the enabled producer.
func replace(p *producer) {
	enableMutex.Lock()
	defer enableMutex.Unlock()

	m := metricproducer.GlobalManager()
	m.DeleteProducer(enabledProducer)
	m.AddProducer(p)
	enabledProducer = p
}
'''))
r('run/disable-local',(RM,'''	metricproducer.GlobalManager().DeleteProducer(enabledProducer)
	enabledProducer = nil
''','''	old := enabledProducer
	enabledProducer = nil
	metricproducer.GlobalManager().DeleteProducer(old)
'''))
r('run/enable-order',(RM,'''	metricproducer.GlobalManager().DeleteProducer(enabledProducer)
	metricproducer.GlobalManager().AddProducer(producer)
	enabledProducer = producer
''','''	old := enabledProducer
	enabledProducer = producer
	metricproducer.GlobalManager().DeleteProducer(old)
	metricproducer.GlobalManager().AddProducer(enabledProducer)
'''))
r('run/read-order',(RM,'''	if p.deprecatedMemStats != nil {
		p.deprecatedMemStats.read()
	}

	if p.memStats != nil {
		p.memStats.read()
	}

	if p.cpuStats != nil {
		p.cpuStats.read()
	}

	return p.reg.Read()
}
''','''	p.update()
	return p.reg.Read()
}

// update takes the current values.  The caller holds p.mu.
func (p *producer) update() {
	if c := p.cpuStats; c != nil {
		c.read()
	}
	if m := p.memStats; m != nil {
		m.read()
	}
	if m := p.deprecatedMemStats; m != nil {
		m.read()
	}
}
'''))
r('run/read-nil',(RM,'''	if p.cpuStats != nil {
		p.cpuStats.read()
	}
''','''	p.cpuStats.read()
'''),(RM,'''	c.numGoroutines.Set(int64(runtime.NumGoroutine()))
''','''	if c == nil {
		return
	}
	c.numGoroutines.Set(int64(runtime.NumGoroutine()))
'''))
r('run/name-helper',(RM,'''	if len(p.options.Prefix) > 0 {
		name = p.options.Prefix + name
	}

	gauge, err := p.reg.AddFloat64Gauge(
		name,
''','''	name = p.metricName(name)

	gauge, err := p.reg.AddFloat64Gauge(
		name,
'''),(RM,'''	if len(p.options.Prefix) > 0 {
		name = p.options.Prefix + name
	}

	gauge, err := p.reg.AddInt64Gauge(
''','''	name = p.metricName(name)

	gauge, err := p.reg.AddInt64Gauge(
'''),(RM,'''	if len(p.options.Prefix) > 0 {
		name = p.options.Prefix + name
	}

	cumulative,''','''	name = p.metricName(name)

	cumulative,'''),(RM,'''func newCPUStats(''','''func (p *producer) metricName(name string) string {
	return p.options.Prefix + name
}

func newCPUStats('''))
r('run/read-ms',(RM,'''	m.numForcedGC.Set(int64(m.memStats.NumForcedGC))
	m.nextGC.Set(int64(m.memStats.NextGC))
	m.lastGC.Set(int64(m.memStats.LastGC) / int64(time.Millisecond))
	m.pauseTotalNs.Set(int64(m.memStats.PauseTotalNs) / int64(time.Millisecond))
''','''	m.numForcedGC.Set(int64(m.memStats.NumForcedGC))
	m.nextGC.Set(int64(m.memStats.NextGC))
	m.lastGC.Set(int64(m.memStats.LastGC / uint64(time.Millisecond)))
	m.pauseTotalNs.Set(time.Duration(m.memStats.PauseTotalNs).Milliseconds())
'''))
r('run/read-ptr',(RM,'''	runtime.ReadMemStats(&m.memStats)

	m.memAlloc.Set(int64(m.memStats.Alloc))
	m.memTotal.Set(int64(m.memStats.TotalAlloc))
	m.memSys.Set(int64(m.memStats.Sys))
''','''	ms := &m.memStats
	runtime.ReadMemStats(ms)

	m.memAlloc.Set(int64(ms.Alloc))
	m.memTotal.Set(int64(ms.TotalAlloc))
	m.memSys.Set(int64(ms.Sys))
'''))
r('run/closure-helper',(RM,'''	_ = m.memTotal.UpsertEntry(func() int64 {
		return int64(m.memStats.TotalAlloc)
	})
''','''	upsert(m.memTotal, &m.memStats.TotalAlloc)
'''),(RM,'''	_ = m.memLookups.UpsertEntry(func() int64 {
		return int64(m.memStats.Lookups)
	})
''','''	upsert(m.memLookups, &m.memStats.Lookups)
'''),(RM,'''func newCPUStats(''','''// upsert makes c report the value at v.
func upsert(c *metric.Int64DerivedCumulative, v *uint64) {
	_ = c.UpsertEntry(func() int64 {
		return int64(*v)
	})
}

func newCPUStats('''))
r('run/cpu-lit',(RM,'''	cpuStats := &cpuStats{}
	var err error

	cpuStats.numGoroutines, err = producer.createInt64GaugeEntry("process/cpu_goroutines", "Number of goroutines that currently exist", metricdata.UnitDimensionless)
	if err != nil {
		return nil, err
	}

	cpuStats.numCgoCalls, err = producer.createInt64GaugeEntry("process/cpu_cgo_calls", "Number of cgo calls made by the current process", metricdata.UnitDimensionless)
	if err != nil {
		return nil, err
	}

	return cpuStats, nil
''','''	goroutines, err := producer.createInt64GaugeEntry("process/cpu_goroutines", "Number of goroutines that currently exist", metricdata.UnitDimensionless)
	if err != nil {
		return nil, err
	}
	cgoCalls, err := producer.createInt64GaugeEntry("process/cpu_cgo_calls", "Number of cgo calls made by the current process", metricdata.UnitDimensionless)
	if err != nil {
		return nil, err
	}
	return &cpuStats{numGoroutines: goroutines, numCgoCalls: cgoCalls}, nil
'''))
r('run/create-if',(RM,'''	entry, err := gauge.GetEntry()
	if err != nil {
		return nil, errors.New("error getting gauge entry for " + name + ": " + err.Error())
	}

	return entry, nil
}

func (p *producer) createInt64GaugeEntry''','''	entry, err := gauge.GetEntry()
	if err == nil {
		return entry, nil
	}
	return nil, errors.New("error getting gauge entry for " + name + ": " + err.Error())
}

func (p *producer) createInt64GaugeEntry'''))
r('run/defer-less',(RM,'''// Disable disables collection of runtime metrics.
func Disable() {
	enableMutex.Lock()
	defer enableMutex.Unlock()

	metricproducer.GlobalManager().DeleteProducer(enabledProducer)
	enabledProducer = nil
}
''','''// Disable disables collection of runtime metrics.
func Disable() {
	enableMutex.Lock()
	metricproducer.GlobalManager().DeleteProducer(enabledProducer)
	enabledProducer = nil
	enableMutex.Unlock()
}
'''))

r('z/export-row-helper',(ZR,'''		var (
			sum   float64
			count float64
		)
		switch v := row.Data.(type) {
		case *view.CountData:
			sum = float64(v.Value)
			count = float64(v.Value)
		case *view.DistributionData:
			sum = v.Sum()
			count = float64(v.Count)
		case *view.SumData:
			sum = v.Value
			count = v.Value
		}
''','''		sum, count := totals(row.Data)
'''),(ZR,'''func getStatsPage(''','''func totals(data view.AggregationData) (sum, count float64) {
	switch v := data.(type) {
	case *view.CountData:
		return float64(v.Value), float64(v.Value)
	case *view.DistributionData:
		return v.Sum(), float64(v.Count)
	case *view.SumData:
		return v.Value, v.Value
	}
	return 0, 0
}

func getStatsPage('''))
r('z/export-snap-helper',(ZR,'''		key := methodKey{method: method, received: received}
		s := snaps[key]
		if s == nil {
			s = &statSnapshot{Method: method, Received: received}
			snaps[key] = s
		}
''','''		s := snapFor(methodKey{method, received})
'''),(ZR,'''func getStatsPage(''','''// snapFor returns the row of the key.  The caller holds mu.
func snapFor(key methodKey) *statSnapshot {
	s, ok := snaps[key]
	if !ok {
		s = &statSnapshot{Method: key.method, Received: key.received}
		snaps[key] = s
	}
	return s
}

func getStatsPage('''))
r('z/export-method',(ZR,'''		var method string
		for _, tag := range row.Tags {
			if tag.Key == ocgrpc.KeyClientMethod || tag.Key == ocgrpc.KeyServerMethod {
				method = tag.Value
				break
			}
		}
''','''		method := methodOf(row)
'''),(ZR,'''func getStatsPage(''','''func methodOf(row *view.Row) string {
	for i := range row.Tags {
		switch row.Tags[i].Key {
		case ocgrpc.KeyClientMethod, ocgrpc.KeyServerMethod:
			return row.Tags[i].Value
		}
	}
	return ""
}

func getStatsPage('''))
r('z/export-errors',(ZR,'''		case ocgrpc.ClientCompletedRPCsView:
			if _, ok := haveResetErrors[method]; !ok {
				haveResetErrors[method] = struct{}{}
				s.ErrorsTotal = 0
			}
			for _, tag := range row.Tags {
				if tag.Key == ocgrpc.KeyClientStatus && tag.Value != "OK" {
					s.ErrorsTotal += uint64(count)
				}
			}
''','''		case ocgrpc.ClientCompletedRPCsView:
			addErrors(ocgrpc.KeyClientStatus, count)
'''),(ZR,'''		case ocgrpc.ServerCompletedRPCsView:
			if _, ok := haveResetErrors[method]; !ok {
				haveResetErrors[method] = struct{}{}
				s.ErrorsTotal = 0
			}
			for _, tag := range row.Tags {
				if tag.Key == ocgrpc.KeyServerStatus && tag.Value != "OK" {
					s.ErrorsTotal += uint64(count)
				}
			}
''','''		case ocgrpc.ServerCompletedRPCsView:
			addErrors(ocgrpc.KeyServerStatus, count)
'''),(ZR,'''		// Update field of s corresponding to the view.
''','''		addErrors := func(key tag.Key, count float64) {
			if _, ok := haveResetErrors[method]; !ok {
				haveResetErrors[method] = struct{}{}
				s.ErrorsTotal = 0
			}
			for _, tag := range row.Tags {
				if tag.Key == key && tag.Value != "OK" {
					s.ErrorsTotal += uint64(count)
				}
			}
		}

		// Update field of s corresponding to the view.
'''),(ZR,'''	"go.opencensus.io/stats/view"
''','''	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
'''))
r('z/export-reset-bool',(ZR,'''	haveResetErrors := make(map[string]struct{})
''','''	haveResetErrors := make(map[string]bool)
'''),(ZR,'''		case ocgrpc.ClientCompletedRPCsView:
			if _, ok := haveResetErrors[method]; !ok {
				haveResetErrors[method] = struct{}{}
''','''		case ocgrpc.ClientCompletedRPCsView:
			if !haveResetErrors[method] {
				haveResetErrors[method] = true
'''),(ZR,'''		case ocgrpc.ServerCompletedRPCsView:
			if _, ok := haveResetErrors[method]; !ok {
				haveResetErrors[method] = struct{}{}
''','''		case ocgrpc.ServerCompletedRPCsView:
			if !haveResetErrors[method] {
				haveResetErrors[method] = true
'''))
r('z/export-merge-cases',(ZR,'''		case ocgrpc.ClientRoundtripLatencyView:
			s.AvgLatencyTotal''','''		case ocgrpc.ClientRoundtripLatencyView, ocgrpc.ServerLatencyView:
			s.AvgLatencyTotal'''),(ZR,'''		case ocgrpc.ServerLatencyView:
			s.AvgLatencyTotal = convertTime(sum / count)

''',''))
r('z/export-rate-inline',(ZR,'''	computeRate := func(maxSec, x float64) float64 {
		dur := ageSec
		if maxSec > 0 && dur > maxSec {
			dur = maxSec
		}
		return x / dur
	}
''','''	computeRate := func(maxSec, x float64) float64 {
		if 0 < maxSec && maxSec < ageSec {
			return x / maxSec
		}
		return x / ageSec
	}
'''),(ZR,'''	ageSec := float64(time.Since(programStartTime)) / float64(time.Second)
''','''	ageSec := time.Since(programStartTime).Seconds()
'''))
r('z/export-guard',(ZR,'''	received, ok := viewType[vd.View]
	if !ok {
		return
	}
	if len(vd.Rows) == 0 {
		return
	}
''','''	received, known := viewType[vd.View]
	if !known || len(vd.Rows) == 0 {
		return
	}
'''))
r('z/stats-page',(ZR,'''	sentStats := statGroup{Direction: "Sent"}
	receivedStats := statGroup{Direction: "Received"}
	for key, sg := range snaps {
		if key.received {
			receivedStats.Snapshots = append(receivedStats.Snapshots, sg)
		} else {
			sentStats.Snapshots = append(sentStats.Snapshots, sg)
		}
	}
	sort.Sort(&sentStats)
	sort.Sort(&receivedStats)

	return &statsPage{
		StatGroups: []*statGroup{&sentStats, &receivedStats},
	}
''','''	sent := &statGroup{Direction: "Sent"}
	received := &statGroup{Direction: "Received"}
	for key, sg := range snaps {
		g := sent
		if key.received {
			g = received
		}
		g.Snapshots = append(g.Snapshots, sg)
	}
	groups := []*statGroup{sent, received}
	for _, g := range groups {
		sort.Sort(g)
	}
	return &statsPage{StatGroups: groups}
'''))
r('z/stats-page-slice',(ZR,'''	sort.Sort(&sentStats)
	sort.Sort(&receivedStats)
''','''	sort.Slice(sentStats.Snapshots, sentStats.Less)
	sort.Slice(receivedStats.Snapshots, receivedStats.Less)
'''))
r('z/text-row-helper',(ZR,'''		for _, s := range sg.Snapshots {
			fmt.Fprintf(tw,''','''		for i := range sg.Snapshots {
			s := sg.Snapshots[i]
			fmt.Fprintf(tw,'''))
r('z/register-views',(ZR,'''	if err := view.Register(views...); err != nil {
		log.Printf("error subscribing to views: %v", err)
	}
	view.RegisterExporter(snapExporter{})
''','''	err := view.Register(views...)
	if err != nil {
		log.Printf("error subscribing to views: %v", err)
	}
	var exp snapExporter
	view.RegisterExporter(exp)
'''))
r('z/code-string',(ZT,'''	if code < 0 || int(code) >= len(canonicalCodes) {
		return "error code " + strconv.FormatInt(int64(code), 10)
	}
	return canonicalCodes[code]
''','''	if code >= 0 && int(code) < len(canonicalCodes) {
		return canonicalCodes[code]
	}
	return fmt.Sprintf("error code %d", code)
'''))
r('z/code-string-uint',(ZT,'''	if code < 0 || int(code) >= len(canonicalCodes) {
''','''	if uint(code) >= uint(len(canonicalCodes)) {
'''))
r('z/spans-switch',(ZT,'''		if spanSubtype == 0 {
			max = defaultLatencies[0]
		} else if spanSubtype == n {
			min, max = defaultLatencies[spanSubtype-1], (1<<63)-1
		} else if 0 < spanSubtype && spanSubtype < n {
			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]
		}
''','''		switch {
		case spanSubtype == 0:
			max = defaultLatencies[0]
		case spanSubtype > 0 && spanSubtype < n:
			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]
		case spanSubtype == n:
			min, max = defaultLatencies[n-1], math.MaxInt64
		}
'''),(ZT,'''	"log"
''','''	"log"
	"math"
'''))
r('z/spans-bounds-helper',(ZT,'''		var min, max time.Duration
		n := len(defaultLatencies)
		if spanSubtype == 0 {
			max = defaultLatencies[0]
		} else if spanSubtype == n {
			min, max = defaultLatencies[spanSubtype-1], (1<<63)-1
		} else if 0 < spanSubtype && spanSubtype < n {
			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]
		}
		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
''','''		min, max := latencyBounds(spanSubtype)
		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
'''),(ZT,'''func traceDataFromSpans(''','''func latencyBounds(bucket int) (min, max time.Duration) {
	n := len(defaultLatencies)
	if bucket < 0 || bucket > n {
		return 0, 0
	}
	if bucket > 0 {
		min = defaultLatencies[bucket-1]
	}
	if bucket == n {
		return min, 1<<63 - 1
	}
	return min, defaultLatencies[bucket]
}

func traceDataFromSpans('''))
r('z/spans-return',(ZT,'''	var spans []*trace.SpanData
	switch spanType {
	case 0: // active
		spans = internalTrace.ReportActiveSpans(spanName)
''','''	var spans []*trace.SpanData
	switch spanType {
	case 0: // active
		return internalTrace.ReportActiveSpans(spanName)
'''),(ZT,'''		spans = internalTrace.ReportSpansByError(spanName, int32(spanSubtype))
	}
''','''		code := int32(spanSubtype)
		return internalTrace.ReportSpansByError(spanName, code)
	}
'''))
r('z/trunc-helper',(ZT,'''	for i := range out {
		if len(out[i].Fields[2]) > maxTraceMessageLength {
			out[i].Fields[2] = out[i].Fields[2][:maxTraceMessageLength]
		}
	}
	return out
}
''','''	for i := range out {
		out[i].Fields[2] = truncate(out[i].Fields[2])
	}
	return out
}

func truncate(s string) string {
	if len(s) <= maxTraceMessageLength {
		return s
	}
	return s[:maxTraceMessageLength]
}
'''))
r('z/trunc-ptr',(ZT,'''		if len(out[i].Fields[2]) > maxTraceMessageLength {
			out[i].Fields[2] = out[i].Fields[2][:maxTraceMessageLength]
		}
''','''		f := &out[i].Fields[2]
		if len(*f) > maxTraceMessageLength {
			*f = (*f)[:maxTraceMessageLength]
		}
'''))
r('z/rows-events',(ZT,'''	var es events
	for i := range s.Annotations {
		es = append(es, &s.Annotations[i])
	}
	for i := range s.MessageEvents {
		es = append(es, &s.MessageEvents[i])
	}
	sort.Sort(es)
''','''	es := make(events, 0, len(s.Annotations)+len(s.MessageEvents))
	for i := range s.Annotations {
		a := &s.Annotations[i]
		es = append(es, a)
	}
	for i := 0; i < len(s.MessageEvents); i++ {
		es = append(es, &s.MessageEvents[i])
	}
	sort.Sort(es)
'''))
r('z/rows-less',(ZT,'''	var ti time.Time
	switch x := e[i].(type) {
	case *trace.Annotation:
		ti = x.Time
	case *trace.MessageEvent:
		ti = x.Time
	}
	switch x := e[j].(type) {
	case *trace.Annotation:
		return ti.Before(x.Time)
	case *trace.MessageEvent:
		return ti.Before(x.Time)
	}
	return false
}
''','''	return eventTime(e[i]).Before(eventTime(e[j]))
}

func eventTime(e interface{}) time.Time {
	switch x := e.(type) {
	case *trace.Annotation:
		return x.Time
	case *trace.MessageEvent:
		return x.Time
	}
	return time.Time{}
}
'''))
r('z/rows-attrs',(ZT,'''		var keys []string
		for key := range a {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		var s []string
		for _, key := range keys {
			val := a[key]
			switch val.(type) {
			case string:
				s = append(s, fmt.Sprintf("%s=%q", key, val))
			default:
				s = append(s, fmt.Sprintf("%s=%v", key, val))
			}
		}
		return "Attributes:{" + strings.Join(s, ", ") + "}"
''','''		keys := make([]string, 0, len(a))
		for key := range a {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		parts := make([]string, len(keys))
		for i, key := range keys {
			format := "%s=%v"
			if _, ok := a[key].(string); ok {
				format = "%s=%q"
			}
			parts[i] = fmt.Sprintf(format, key, a[key])
		}
		return fmt.Sprintf("Attributes:{%s}", strings.Join(parts, ", "))
'''))
r('z/data-copy',(ZT,'''	for _, s := range spans {
		data.Rows = append(data.Rows, traceRows(s)...)
	}
	return data
''','''	var rows []traceRow
	for i := 0; i < len(spans); i++ {
		rows = append(rows, traceRows(spans[i])...)
	}
	data.Rows = rows
	return data
'''))
r('z/text-spans-inline',(ZT,'''	spans := traceSpans(spanName, spanType, spanSubtype)
	data := traceDataFromSpans(spanName, spans)
	writeTextTraces(w, data)
''','''	writeTextTraces(w, traceDataFromSpans(spanName, traceSpans(spanName, spanType, spanSubtype)))
'''))
r('z/summary-row-helper',(ZT,'''		row := summaryPageRow{Name: name, Active: s.Active}
		for _, l := range s.LatencyBuckets {
			row.Latency = append(row.Latency, l.Size)
		}
		for _, e := range s.ErrorBuckets {
			row.Errors += e.Size
		}
		data.Rows = append(data.Rows, row)
	}
''','''		data.Rows = append(data.Rows, summaryRow(name, s))
	}
'''),(ZT,'''func getSummaryPageData(''','''func summaryRow(name string, s internal.PerMethodSummary) summaryPageRow {
	row := summaryPageRow{
		Name:    name,
		Active:  s.Active,
		Latency: make([]int, len(s.LatencyBuckets)),
	}
	for i, l := range s.LatencyBuckets {
		row.Latency[i] = l.Size
	}
	errs := 0
	for _, e := range s.ErrorBuckets {
		errs += e.Size
	}
	row.Errors = errs
	return row
}

func getSummaryPageData('''))
r('z/handler-vars',(ZT,'''	name := r.Form.Get(spanNameQueryField)
	t, _ := strconv.Atoi(r.Form.Get(spanTypeQueryField))
	st, _ := strconv.Atoi(r.Form.Get(spanSubtypeQueryField))
	WriteHTMLTracezPage(w, name, t, st)
''','''	form := r.Form
	number := func(key string) int {
		n, _ := strconv.Atoi(form.Get(key))
		return n
	}
	WriteHTMLTracezPage(w, form.Get(spanNameQueryField), number(spanTypeQueryField), number(spanSubtypeQueryField))
'''))
TE='internal/tagencoding/tagencoding.go'
r('res/encode-builder',(RES,'''	s := ""
	for i, k := range sortedKeys {
		if i > 0 {
			s += ","
		}
		s += k + "=" + strconv.Quote(labels[k])
	}
	return s
''','''	var sb strings.Builder
	for i, k := range sortedKeys {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(strconv.Quote(labels[k]))
	}
	return sb.String()
'''))
r('res/encode-join',(RES,'''	s := ""
	for i, k := range sortedKeys {
		if i > 0 {
			s += ","
		}
		s += k + "=" + strconv.Quote(labels[k])
	}
	return s
''','''	pairs := make([]string, len(sortedKeys))
	for i, k := range sortedKeys {
		pairs[i] = k + "=" + strconv.Quote(labels[k])
	}
	return strings.Join(pairs, ",")
'''))
r('res/encode-keyshelper',(RES,'''	sortedKeys := make([]string, 0, len(labels))
	for k := range labels {
		sortedKeys = append(sortedKeys, k)
	}
	sort.Strings(sortedKeys)

	s := ""''','''	sortedKeys := sortedLabelKeys(labels)

	s := ""'''),(RES,'''var labelRegex =''','''func sortedLabelKeys(labels map[string]string) []string {
	keys := make([]string, 0, len(labels))
	for k := range labels {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

var labelRegex ='''))
r('res/encode-sprintf',(RES,'''		s += k + "=" + strconv.Quote(labels[k])''','''		s += fmt.Sprintf("%s=%q", k, labels[k])'''))
r('res/encode-slice',(RES,'''	sort.Strings(sortedKeys)
''','''	sort.Slice(sortedKeys, func(i, j int) bool { return sortedKeys[i] < sortedKeys[j] })
'''))
r('res/decode-err',(RES,'''		v := match[2]
		if v == "" {
			v = match[3]
		} else {
			var err error
			if v, err = strconv.Unquote(v); err != nil {
				return nil, fmt.Errorf("invalid label formatting, remainder: %s, err: %s", s, err)
			}
		}
		m[match[1]] = v
''','''		// The second group always holds the quoted value.
		v, err := strconv.Unquote(match[2])
		if err != nil {
			return nil, fmt.Errorf("invalid label formatting, remainder: %s, err: %s", s, err)
		}
		m[match[1]] = v
'''))
r('res/decode-names',(RES,'''		m[match[1]] = v

		s = s[len(match[0]):]
''','''		whole, key := match[0], match[1]
		s = s[len(whole):]
		m[key] = v
'''))
r('res/decode-nil',(RES,'''		if len(match) == 0 {
			return nil, fmt''','''		if match == nil {
			return nil, fmt'''))
r('res/decode-loop',(RES,'''	for len(s) > 0 {
		match''','''	for s != "" {
		match'''))
r('res/fromenv-flip',(RES,'''	if labels == "" {
		return res, nil
	}
	var err error
	if res.Labels, err = DecodeLabels(labels); err != nil {
		return nil, err
	}
	return res, nil
''','''	if labels != "" {
		m, err := DecodeLabels(labels)
		if err != nil {
			return nil, err
		}
		res.Labels = m
	}
	return res, nil
'''))
r('res/fromenv-late',(RES,'''	res := &Resource{
		Type: strings.TrimSpace(os.Getenv(EnvVarType)),
	}
	labels := strings.TrimSpace(os.Getenv(EnvVarLabels))
	if labels == "" {
		return res, nil
	}
	var err error
	if res.Labels, err = DecodeLabels(labels); err != nil {
		return nil, err
	}
	return res, nil
''','''	typ := strings.TrimSpace(os.Getenv(EnvVarType))
	var m map[string]string
	if labels := strings.TrimSpace(os.Getenv(EnvVarLabels)); labels != "" {
		var err error
		if m, err = DecodeLabels(labels); err != nil {
			return nil, err
		}
	}
	return &Resource{Type: typ, Labels: m}, nil
'''))
r('res/fromenv-helper',(RES,'''		Type: strings.TrimSpace(os.Getenv(EnvVarType)),
	}
	labels := strings.TrimSpace(os.Getenv(EnvVarLabels))
''','''		Type: trimmedEnv(EnvVarType),
	}
	labels := trimmedEnv(EnvVarLabels)
'''),(RES,'''var _ Detector = FromEnv
''','''func trimmedEnv(name string) string { return strings.TrimSpace(os.Getenv(name)) }

var _ Detector = FromEnv
'''))
r('res/merge-skip',(RES,'''	for k, v := range b.Labels {
		res.Labels[k] = v
	}
	// Labels from resource a overwrite labels from resource b.
	for k, v := range a.Labels {
		res.Labels[k] = v
	}
	return res
''','''	for k, v := range a.Labels {
		res.Labels[k] = v
	}
	// Labels from resource b only fill the gaps.
	for k, v := range b.Labels {
		if _, ok := res.Labels[k]; !ok {
			res.Labels[k] = v
		}
	}
	return res
'''))
r('res/merge-size',(RES,'''		Labels: map[string]string{},
	}
	if res''','''		Labels: make(map[string]string, len(a.Labels)+len(b.Labels)),
	}
	if res'''))
r('res/merge-type',(RES,'''	res := &Resource{
		Type:   a.Type,
		Labels: map[string]string{},
	}
	if res.Type == "" {
		res.Type = b.Type
	}
''','''	typ := a.Type
	if typ == "" {
		typ = b.Type
	}
	res := &Resource{Type: typ, Labels: map[string]string{}}
'''))
r('res/merge-helper',(RES,'''	for k, v := range b.Labels {
		res.Labels[k] = v
	}
	// Labels from resource a overwrite labels from resource b.
	for k, v := range a.Labels {
		res.Labels[k] = v
	}
	return res
}
''','''	copyLabels(res.Labels, b.Labels)
	// Labels from resource a overwrite labels from resource b.
	copyLabels(res.Labels, a.Labels)
	return res
}

func copyLabels(dst, src map[string]string) {
	for k, v := range src {
		dst[k] = v
	}
}
'''))
r('res/merge-switch',(RES,'''	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
''','''	switch {
	case a == nil:
		return b
	case b == nil:
		return a
	}
'''))
r('res/multi-inline',(RES,'''		return detectAll(ctx, detectors...)
''','''		var merged *Resource
		for i := range detectors {
			r, err := detectors[i](ctx)
			if err != nil {
				return nil, err
			}
			merged = merge(merged, r)
		}
		return merged, nil
'''),(RES,'''// detectall calls all input detectors sequentially an merges each result with the previous one.
// It returns on the first error that a sub-detector encounters.
func detectAll(ctx context.Context, detectors ...Detector) (*Resource, error) {
	var res *Resource
	for _, d := range detectors {
		r, err := d(ctx)
		if err != nil {
			return nil, err
		}
		res = merge(res, r)
	}
	return res, nil
}
''',''''''))
r('res/multi-index',(RES,'''	for _, d := range detectors {
		r, err := d(ctx)
		if err != nil {
			return nil, err
		}
		res = merge(res, r)
	}
	return res, nil
''','''	for i := 0; i < len(detectors); i++ {
		if r, err := detectors[i](ctx); err != nil {
			return nil, err
		} else {
			res = merge(res, r)
		}
	}
	return res, nil
'''))
r('te/grow-append',(TE,'''		tmp := make([]byte, 2*(len(vb.Buffer)+1)+expected)
		copy(tmp, vb.Buffer)
		vb.Buffer = tmp
''','''		grown := make([]byte, 2*len(vb.Buffer)+2+expected)
		copy(grown, vb.Buffer[:vb.WriteIndex])
		vb.Buffer = grown
'''))
r('te/grow-inline',(TE,'''	vb.growIfRequired(1 + length)
''','''	if need := vb.WriteIndex + 1 + length; need > len(vb.Buffer) {
		tmp := make([]byte, 2*(len(vb.Buffer)+1)+1+length)
		copy(tmp, vb.Buffer)
		vb.Buffer = tmp
	}
'''),(TE,'''func (vb *Values) growIfRequired(expected int) {
	if len(vb.Buffer)-vb.WriteIndex < expected {
		tmp := make([]byte, 2*(len(vb.Buffer)+1)+expected)
		copy(tmp, vb.Buffer)
		vb.Buffer = tmp
	}
}

''',''))
r('te/grow-early',(TE,'''	if len(vb.Buffer)-vb.WriteIndex < expected {
		tmp := make([]byte, 2*(len(vb.Buffer)+1)+expected)
		copy(tmp, vb.Buffer)
		vb.Buffer = tmp
	}
''','''	if free := len(vb.Buffer) - vb.WriteIndex; free >= expected {
		return
	}
	tmp := make([]byte, 2*(len(vb.Buffer)+1)+expected)
	copy(tmp, vb.Buffer)
	vb.Buffer = tmp
'''))
r('te/write-noreturn',(TE,'''	if length == 0 {
		// No value was encoded for this key
		return
	}

	// writing v
	copy(vb.Buffer[vb.WriteIndex:], v[:length])
	vb.WriteIndex += length
''','''	// writing v
	if length > 0 {
		vb.WriteIndex += copy(vb.Buffer[vb.WriteIndex:], v[:length])
	}
'''))
r('te/write-nocheck',(TE,'''	if length == 0 {
		// No value was encoded for this key
		return
	}

	// writing v
	copy(''','''	// writing v, which may be empty
	copy('''))
r('te/write-local',(TE,'''	vb.Buffer[vb.WriteIndex] = byte(length)
	vb.WriteIndex++

	if length == 0 {
		// No value was encoded for this key
		return
	}

	// writing v
	copy(vb.Buffer[vb.WriteIndex:], v[:length])
	vb.WriteIndex += length
''','''	at := vb.WriteIndex
	vb.Buffer[at] = byte(length)
	copy(vb.Buffer[at+1:], v[:length])
	vb.WriteIndex = at + 1 + length
'''))
r('te/write-mod',(TE,'''	length := len(v) & 0xff
''','''	length := int(byte(len(v)))
'''))
r('te/read-append',(TE,'''	v := make([]byte, length)
	endIdx := vb.ReadIndex + length
	copy(v, vb.Buffer[vb.ReadIndex:endIdx])
	vb.ReadIndex = endIdx
	return v
''','''	start, end := vb.ReadIndex, vb.ReadIndex+length
	vb.ReadIndex = end
	return append([]byte(nil), vb.Buffer[start:end]...)
'''))
r('te/read-local',(TE,'''	length := int(vb.Buffer[vb.ReadIndex])
	vb.ReadIndex++
	if length == 0 {
		// No value was encoded for this key
		return nil
	}

	// read value of v
	v := make([]byte, length)
	endIdx := vb.ReadIndex + length
	copy(v, vb.Buffer[vb.ReadIndex:endIdx])
	vb.ReadIndex = endIdx
	return v
''','''	start := vb.ReadIndex + 1
	length := int(vb.Buffer[start-1])
	vb.ReadIndex = start + length
	if length == 0 {
		// No value was encoded for this key
		return nil
	}
	v := make([]byte, length)
	copy(v, vb.Buffer[start:vb.ReadIndex])
	return v
'''))
r('te/bytes',(TE,'''	return vb.Buffer[:vb.WriteIndex]
''','''	return vb.Buffer[0:vb.WriteIndex:vb.WriteIndex]
'''))
r('sa/ptr',(SA,'''	sa := spanAnnotator{sp: s}
''','''	sa := &spanAnnotator{sp: s}
'''))
r('sa/inline',(SA,'''	attrs := []trace.Attribute{
		trace.StringAttribute("httptrace.get_connection.host_port", hostPort),
	}
	s.sp.Annotate(attrs, "GetConn")
''','''	s.sp.Annotate([]trace.Attribute{trace.StringAttribute("httptrace.get_connection.host_port", hostPort)}, "GetConn")
'''))
r('sa/helper',(SA,'''	var attrs []trace.Attribute
	if err != nil {
		attrs = append(attrs,
			trace.StringAttribute("httptrace.put_idle_connection.error", err.Error()))
	}
	s.sp.Annotate(attrs, "PutIdleConn")
''','''	s.sp.Annotate(errAttrs("httptrace.put_idle_connection.error", err), "PutIdleConn")
'''),(SA,'''	var attrs []trace.Attribute
	if err != nil {
		attrs = append(attrs,
			trace.StringAttribute("httptrace.tls_handshake_done.error", err.Error()))
	}
	s.sp.Annotate(attrs, "TLSHandshakeDone")
''','''	s.sp.Annotate(errAttrs("httptrace.tls_handshake_done.error", err), "TLSHandshakeDone")
'''),(SA,'''// PutIdleConn implements''','''func errAttrs(key string, err error) []trace.Attribute {
	if err == nil {
		return nil
	}
	return []trace.Attribute{trace.StringAttribute(key, err.Error())}
}

// PutIdleConn implements'''))

EX='trace/export.go'; TR='trace/trace.go'; CF='trace/config.go'; SM='trace/sampling.go'; SB='trace/spanbucket.go'; SS='trace/spanstore.go'; LM='trace/lrumap.go'; EQ='trace/evictedqueue.go'
r('trace2/end-early',(TR,'''		exp, _ := exporters.Load().(exportersMap)
		mustExport := s.spanContext.IsSampled() && len(exp) > 0
		if s.spanStore != nil || mustExport {
			sd := s.makeSpanData()
			sd.EndTime = internal.MonotonicEndTime(sd.StartTime)
			if s.spanStore != nil {
				s.spanStore.finished(s, sd)
			}
			if mustExport {
				for e := range exp {
					e.ExportSpan(sd)
				}
			}
		}
''','''		var exp exportersMap
		if s.spanContext.IsSampled() {
			exp, _ = exporters.Load().(exportersMap)
		}
		if s.spanStore == nil && len(exp) == 0 {
			return
		}
		sd := s.makeSpanData()
		sd.EndTime = internal.MonotonicEndTime(sd.StartTime)
		if s.spanStore != nil {
			s.spanStore.finished(s, sd)
		}
		for e := range exp {
			e.ExportSpan(sd)
		}
'''))
r('trace2/end-finish-method',(TR,'''	s.endOnce.Do(func() {
		exp, _''','''	s.endOnce.Do(s.finish)
}

func (s *span) finish() {
	{
		exp, _'''),(TR,'''				for e := range exp {
					e.ExportSpan(sd)
				}
			}
		}
	})
}
''','''				for e := range exp {
					e.ExportSpan(sd)
				}
			}
		}
	}
}
'''))
r('trace2/end-export-helper',(TR,'''			if mustExport {
				for e := range exp {
					e.ExportSpan(sd)
				}
			}
''','''			if mustExport {
				exp.export(sd)
			}
'''),(EX,'''type exportersMap map[Exporter]struct{}
''','''type exportersMap map[Exporter]struct{}

func (m exportersMap) export(sd *SpanData) {
	for e := range m {
		e.ExportSpan(sd)
	}
}
'''))
r('trace2/load-helper',(TR,'''		exp, _ := exporters.Load().(exportersMap)
''','''		exp := currentExporters()
'''),(EX,'''	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	new[e]''','''	for k, v := range currentExporters() {
		new[k] = v
	}
	new[e]'''),(EX,'''// RegisterExporter adds''','''func currentExporters() exportersMap {
	m, _ := exporters.Load().(exportersMap)
	return m
}

// RegisterExporter adds'''))
r('trace2/update-closure',(EX,'''	exporterMu.Lock()
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	new[e] = struct{}{}
	exporters.Store(new)
	exporterMu.Unlock()
''','''	updateExporters(func(m exportersMap) { m[e] = struct{}{} })
'''),(EX,'''	exporterMu.Lock()
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	delete(new, e)
	exporters.Store(new)
	exporterMu.Unlock()
''','''	updateExporters(func(m exportersMap) { delete(m, e) })
'''),(EX,'''// RegisterExporter adds''','''func updateExporters(change func(exportersMap)) {
	exporterMu.Lock()
	defer exporterMu.Unlock()
	old, _ := exporters.Load().(exportersMap)
	m := make(exportersMap, len(old)+1)
	for k, v := range old {
		m[k] = v
	}
	change(m)
	exporters.Store(m)
}

// RegisterExporter adds'''))
r('trace2/start-literal',(TR,'''	s := &span{}
	s.spanContext = parent

	cfg''','''	s := &span{spanContext: parent}

	cfg'''))
r('trace2/start-local-sc',(TR,'''	s.spanContext.SpanID = cfg.IDGenerator.NewSpanID()
	sampler := cfg.DefaultSampler

	if''','''	spanID := cfg.IDGenerator.NewSpanID()
	s.spanContext.SpanID = spanID
	sampler := cfg.DefaultSampler

	if'''),(TR,'''		if o.Sampler != nil {
			sampler = o.Sampler
		}
		s.spanContext.setIsSampled(sampler(SamplingParameters{
			ParentContext:   parent,
			TraceID:         s.spanContext.TraceID,
			SpanID:          s.spanContext.SpanID,
			Name:            name,
			HasRemoteParent: remoteParent}).Sample)
''','''		if o.Sampler != nil {
			sampler = o.Sampler
		}
		params := SamplingParameters{
			ParentContext: parent,
			TraceID:       s.spanContext.TraceID,
			SpanID:        spanID,
			Name:          name,
		}
		params.HasRemoteParent = remoteParent
		decision := sampler(params)
		s.spanContext.setIsSampled(decision.Sample)
'''))
r('trace2/start-keep-local',(TR,'''	if !hasParent || remoteParent || o.Sampler != nil {
''','''	if keepParentDecision := hasParent && !remoteParent && o.Sampler == nil; !keepParentDecision {
'''))
r('trace2/start-lists-helper',(TR,'''	s.lruAttributes = newLruMap(cfg.MaxAttributesPerSpan)
	s.annotations = newEvictedQueue(cfg.MaxAnnotationEventsPerSpan)
	s.messageEvents = newEvictedQueue(cfg.MaxMessageEventsPerSpan)
	s.links = newEvictedQueue(cfg.MaxLinksPerSpan)

	if hasParent {
		s.data.ParentSpanID = parent.SpanID
	}
	if internal.LocalSpanStoreEnabled {
		var ss *spanStore
		ss = spanStoreForNameCreateIfNew(name)
		if ss != nil {
			s.spanStore = ss
			ss.add(s)
		}
	}

	return s
}
''','''	s.allocate(cfg)
	if hasParent {
		s.data.ParentSpanID = parent.SpanID
	}
	if internal.LocalSpanStoreEnabled {
		s.attach(spanStoreForNameCreateIfNew(name))
	}

	return s
}

func (s *span) allocate(cfg *Config) {
	s.lruAttributes = newLruMap(cfg.MaxAttributesPerSpan)
	s.annotations = newEvictedQueue(cfg.MaxAnnotationEventsPerSpan)
	s.messageEvents = newEvictedQueue(cfg.MaxMessageEventsPerSpan)
	s.links = newEvictedQueue(cfg.MaxLinksPerSpan)
}

func (s *span) attach(ss *spanStore) {
	s.spanStore = ss
	ss.add(s)
}
'''))
r('trace2/start-record-flag',(TR,'''	if !internal.LocalSpanStoreEnabled && !s.spanContext.IsSampled() {
		return s
	}
''','''	if record := internal.LocalSpanStoreEnabled || s.spanContext.IsSampled(); !record {
		return s
	}
'''))
r('trace2/child-helper',(TR,'''	if p := t.FromContext(ctx); p != nil {
		if ps, ok := p.internal.(*span); ok {
			ps.addChild()
		}
		parent = p.SpanContext()
	}
''','''	if p := t.FromContext(ctx); p != nil {
		parent = p.SpanContext()
		p.countChild()
	}
'''),(TR,'''// StartSpan starts a new child''','''func (s *Span) countChild() {
	if ps, ok := s.internal.(*span); ok {
		ps.addChild()
	}
}

// StartSpan starts a new child'''))
r('trace2/start-options-helper',(TR,'''	for _, op := range o {
		op(&opts)
	}
	span := startSpanInternal(name, parent != SpanContext{}, parent, false, opts)
''','''	for i := range o {
		o[i](&opts)
	}
	hasParent := parent != SpanContext{}
	span := startSpanInternal(name, hasParent, parent, false, opts)
'''))
r('trace2/sampled-mask',(TR,'''	if sampled {
		sc.TraceOptions |= 1
	} else {
		sc.TraceOptions &= ^TraceOptions(1)
	}
''','''	sc.TraceOptions &^= 1
	if sampled {
		sc.TraceOptions |= 1
	}
'''))
r('trace2/issampled',(TR,'''	return t&1 == 1
''','''	return t&1 != 0
'''))
r('trace2/spanid-loop',(TR,'''	var id uint64
	for id == 0 {
		id = atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)
	}
	var sid [8]byte
	binary.LittleEndian.PutUint64(sid[:], id)
	return sid
''','''	for {
		id := atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)
		if id == 0 {
			continue
		}
		var sid [8]byte
		binary.LittleEndian.PutUint64(sid[:], id)
		return sid
	}
'''))
r('trace2/traceid-loop',(TR,'''	gen.Lock()
	for tid == ([16]byte{}) {
		binary.LittleEndian.PutUint64(tid[0:8], gen.traceIDRand.Uint64()+gen.traceIDAdd[0])
		binary.LittleEndian.PutUint64(tid[8:16], gen.traceIDRand.Uint64()+gen.traceIDAdd[1])
	}
	gen.Unlock()
	return tid
''','''	gen.Lock()
	defer gen.Unlock()
	for {
		lo := gen.traceIDRand.Uint64() + gen.traceIDAdd[0]
		hi := gen.traceIDRand.Uint64() + gen.traceIDAdd[1]
		if lo == 0 && hi == 0 {
			continue
		}
		binary.LittleEndian.PutUint64(tid[:8], lo)
		binary.LittleEndian.PutUint64(tid[8:], hi)
		return tid
	}
'''))
r('trace2/annotate-attrs-helper',(TR,'''	now := time.Now()
	var am map[string]interface{}
	if len(attributes) != 0 {
		am = make(map[string]interface{}, len(attributes))
		for _, attr := range attributes {
			am[attr.key] = attr.value
		}
	}
	s.mu.Lock()
	s.annotations.add(Annotation{
		Time:       now,
		Message:    str,
		Attributes: am,
	})
	s.mu.Unlock()
''','''	a := Annotation{Time: time.Now(), Message: str, Attributes: attributeMap(attributes)}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.annotations.add(a)
'''),(TR,'''// Annotate adds an annotation with attributes.
// Attributes can be nil.''','''func attributeMap(attributes []Attribute) map[string]interface{} {
	if len(attributes) == 0 {
		return nil
	}
	m := make(map[string]interface{}, len(attributes))
	for i := range attributes {
		a := &attributes[i]
		m[a.key] = a.value
	}
	return m
}

// Annotate adds an annotation with attributes.
// Attributes can be nil.'''))
r('trace2/locked-closure',(TR,'''	s.mu.Lock()
	s.data.Status = status
	s.mu.Unlock()
''','''	s.locked(func(d *SpanData) { d.Status = status })
'''),(TR,'''	s.mu.Lock()
	s.data.Name = name
	s.mu.Unlock()
''','''	s.locked(func(d *SpanData) { d.Name = name })
'''),(TR,'''// SetName sets''','''func (s *span) locked(change func(*SpanData)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	change(s.data)
}

// SetName sets'''))
r('trace2/snapshot-ptr',(TR,'''	var sd SpanData
	s.mu.Lock()
	sd = *s.data
''','''	s.mu.Lock()
	sd := *s.data
'''),(TR,'''		sd.DroppedLinkCount = s.links.droppedCount
	}
	s.mu.Unlock()
	return &sd
''','''		sd.DroppedLinkCount = s.links.droppedCount
	}
	s.mu.Unlock()
	snapshot := &sd
	return snapshot
'''))
r('trace2/snapshot-nonil',(TR,'''	if len(s.links.queue) > 0 {
		sd.Links = s.interfaceArrayToLinksArray()
		sd.DroppedLinkCount = s.links.droppedCount
	}
''','''	if n := len(s.links.queue); n != 0 {
		links := make([]Link, n)
		for i, l := range s.links.queue {
			links[i] = l.(Link)
		}
		sd.Links, sd.DroppedLinkCount = links, s.links.droppedCount
	}
'''))
r('trace2/string',(TR,'''	s.mu.Lock()
	str := fmt.Sprintf("span %s %q", s.spanContext.SpanID, s.data.Name)
	s.mu.Unlock()
	return str
''','''	s.mu.Lock()
	name := s.data.Name
	s.mu.Unlock()
	return fmt.Sprintf("span %s %q", s.spanContext.SpanID, name)
'''))
r('trace2/config-clone',(CF,'''	c := *config.Load().(*Config)
	if''','''	old := config.Load().(*Config)
	c := new(Config)
	*c = *old
	if'''),(CF,'config.Store(&c)','config.Store(c)'))
r('trace2/config-override',(CF,'''	if cfg.MaxAnnotationEventsPerSpan > 0 {
		c.MaxAnnotationEventsPerSpan = cfg.MaxAnnotationEventsPerSpan
	}
	if cfg.MaxMessageEventsPerSpan > 0 {
		c.MaxMessageEventsPerSpan = cfg.MaxMessageEventsPerSpan
	}
	if cfg.MaxAttributesPerSpan > 0 {
		c.MaxAttributesPerSpan = cfg.MaxAttributesPerSpan
	}
	if cfg.MaxLinksPerSpan > 0 {
		c.MaxLinksPerSpan = cfg.MaxLinksPerSpan
	}
''','''	override(&c.MaxAnnotationEventsPerSpan, cfg.MaxAnnotationEventsPerSpan)
	override(&c.MaxMessageEventsPerSpan, cfg.MaxMessageEventsPerSpan)
	override(&c.MaxAttributesPerSpan, cfg.MaxAttributesPerSpan)
	override(&c.MaxLinksPerSpan, cfg.MaxLinksPerSpan)
'''),(CF,'''// ApplyConfig applies''','''func override(limit *int, n int) {
	if n > 0 {
		*limit = n
	}
}

// ApplyConfig applies'''))
r('trace2/sampler-bound',(SM,'''		x := binary.BigEndian.Uint64(p.TraceID[0:8]) >> 1
		return SamplingDecision{Sample: x < traceIDUpperBound}
''','''		sample := binary.BigEndian.Uint64(p.TraceID[:])>>1 < traceIDUpperBound
		return SamplingDecision{Sample: sample}
'''))
r('trace2/sampler-or',(SM,'''		if p.ParentContext.IsSampled() {
			return SamplingDecision{Sample: true}
		}
		x := binary.BigEndian.Uint64(p.TraceID[0:8]) >> 1
		return SamplingDecision{Sample: x < traceIDUpperBound}
''','''		var d SamplingDecision
		x := binary.BigEndian.Uint64(p.TraceID[0:8]) >> 1
		d.Sample = p.ParentContext.IsSampled() || x < traceIDUpperBound
		return d
'''))
r('trace2/sampler-named',(SM,'''	return func(p SamplingParameters) SamplingDecision {
		return SamplingDecision{Sample: true}
	}
''','''	return always
'''),(SM,'''// NeverSample returns''','''func always(SamplingParameters) SamplingDecision { return SamplingDecision{Sample: true} }

// NeverSample returns'''))
r('trace2/bucket-full',(SB,'''	if s.EndTime.Before(b.nextTime) {
		return
	}
	if len(b.buffer) == 0 {
		return
	}
''','''	if len(b.buffer) == 0 || s.EndTime.Before(b.nextTime) {
		return
	}
'''))
r('trace2/bucket-mod',(SB,'''	b.nextIndex++
	if b.nextIndex == len(b.buffer) {
		b.nextIndex = 0
		b.overflow = true
	}
''','''	if b.nextIndex+1 < len(b.buffer) {
		b.nextIndex++
		return
	}
	b.nextIndex, b.overflow = 0, true
'''))
r('trace2/bucket-size',(SB,'''	if b.overflow {
		return len(b.buffer)
	}
	return b.nextIndex
''','''	n := b.nextIndex
	if b.overflow {
		n = len(b.buffer)
	}
	return n
'''))
r('trace2/bucket-span',(SB,'''	if i < len(b.buffer)-b.nextIndex {
		return b.buffer[b.nextIndex+i]
	}
	return b.buffer[b.nextIndex+i-len(b.buffer)]
''','''	j := b.nextIndex + i
	if j >= len(b.buffer) {
		j -= len(b.buffer)
	}
	return b.buffer[j]
'''))
r('trace2/bucket-resize',(SB,'''	cur := b.size()
	newBuffer := make([]*SpanData, n)
	if cur < n {
		for i := 0; i < cur; i++ {
			newBuffer[i] = b.span(i)
		}
		b.buffer = newBuffer
		b.nextIndex = cur
		b.overflow = false
		return
	}
	for i := 0; i < n; i++ {
		newBuffer[i] = b.span(i + cur - n)
	}
	b.buffer = newBuffer
	b.nextIndex = 0
	b.overflow = true
''','''	cur := b.size()
	newBuffer := make([]*SpanData, n)
	keep, skip := cur, 0
	if cur > n {
		keep, skip = n, cur-n
	}
	for i := 0; i < keep; i++ {
		newBuffer[i] = b.span(skip + i)
	}
	b.buffer = newBuffer
	b.overflow = keep == n
	b.nextIndex = 0
	if !b.overflow {
		b.nextIndex = keep
	}
'''))
r('trace2/latency-bucket',(SB,'''	i := 0
	for i < len(defaultLatencies) && latency >= defaultLatencies[i] {
		i++
	}
	return i
''','''	for i, bound := range defaultLatencies {
		if latency < bound {
			return i
		}
	}
	return len(defaultLatencies)
'''))
r('trace2/bounds-switch',(SB,'''	if index == 0 {
		return 0, defaultLatencies[index]
	}
	if index == len(defaultLatencies) {
		return defaultLatencies[index-1], 1<<63 - 1
	}
	return defaultLatencies[index-1], defaultLatencies[index]
''','''	if index > 0 {
		lower = defaultLatencies[index-1]
	}
	upper = 1<<63 - 1
	if index < len(defaultLatencies) {
		upper = defaultLatencies[index]
	}
	return lower, upper
'''))
r('trace2/store-finished',(SS,'''	if code == 0 {
		s.latency[latencyBucket(latency)].add(sd)
	} else {
		if s.errors == nil {
			s.errors = make(map[int32]*bucket)
		}
		if b := s.errors[code]; b != nil {
			b.add(sd)
		} else {
			b := makeBucket(s.maxSpansPerErrorBucket)
			s.errors[code] = &b
			b.add(sd)
		}
	}
	s.mu.Unlock()
''','''	var dst *bucket
	if code == 0 {
		dst = &s.latency[latencyBucket(latency)]
	} else {
		dst = s.errorBucket(code)
	}
	dst.add(sd)
	s.mu.Unlock()
'''),(SS,'''// finished removes''','''func (s *spanStore) errorBucket(code int32) *bucket {
	if b, ok := s.errors[code]; ok {
		return b
	}
	if s.errors == nil {
		s.errors = make(map[int32]*bucket)
	}
	b := makeBucket(s.maxSpansPerErrorBucket)
	s.errors[code] = &b
	return &b
}

// finished removes'''))
r('trace2/store-report-filter',(SS,'''			if minLatency != 0 || maxLatency != 0 {
				d := sd.EndTime.Sub(sd.StartTime)
				if d < minLatency {
					continue
				}
				if maxLatency != 0 && d > maxLatency {
					continue
				}
			}
			out = append(out, sd)
''','''			d := sd.EndTime.Sub(sd.StartTime)
			tooShort := minLatency != 0 && d < minLatency
			tooLong := maxLatency != 0 && d > maxLatency
			if tooShort || tooLong {
				continue
			}
			out = append(out, sd)
'''))
r('trace2/queue-full',(EQ,'''	if len(eq.queue) == eq.capacity {
		eq.queue = eq.queue[1:]
		eq.droppedCount++
	}
	eq.queue = append(eq.queue, value)
''','''	if len(eq.queue) < eq.capacity {
		eq.queue = append(eq.queue, value)
		return
	}
	eq.queue = append(eq.queue[1:], value)
	eq.droppedCount++
'''))
r('trace2/lru-keys',(LM,'''	keys := make([]interface{}, 0, len(lm.cacheKeys))
	for k := range lm.cacheKeys {
		keys = append(keys, k)
	}
	return keys
''','''	keys := make([]interface{}, len(lm.cacheKeys))
	i := 0
	for k := range lm.cacheKeys {
		keys[i] = k
		i++
	}
	return keys
'''))
r('trace2/lru-evict',(LM,'''	lm.cache.OnEvicted = func(key lru.Key, value interface{}) {
		delete(lm.cacheKeys, key)
		lm.droppedCount++
	}
	return lm
''','''	lm.cache.OnEvicted = lm.evicted
	return lm
'''),(LM,'''func (lm lruMap) len()''','''func (lm *lruMap) evicted(key lru.Key, _ interface{}) {
	lm.droppedCount++
	delete(lm.cacheKeys, key)
}

func (lm lruMap) len()'''))
_REG='''	exporterMu.Lock()
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	new[e] = struct{}{}
	exporters.Store(new)
	exporterMu.Unlock()
'''
_UNREG=_REG.replace('	new[e] = struct{}{}\n','	delete(new, e)\n')
r('trace3/unregister-split',(EX,_UNREG,'''	exporterMu.Lock()
	defer exporterMu.Unlock()
	old, ok := exporters.Load().(exportersMap)
	if !ok {
		exporters.Store(exportersMap{})
		return
	}
	remaining := make(exportersMap, len(old))
	for k := range old {
		if k == e {
			continue
		}
		remaining[k] = struct{}{}
	}
	exporters.Store(remaining)
'''))
r('trace3/unregister-unknown',(EX,_UNREG,'''	exporterMu.Lock()
	defer exporterMu.Unlock()
	old, _ := exporters.Load().(exportersMap)
	if _, ok := old[e]; !ok {
		return
	}
	new := make(exportersMap)
	for k, v := range old {
		new[k] = v
	}
	delete(new, e)
	exporters.Store(new)
'''))
r('trace3/unregister-none',(EX,_UNREG,'''	exporterMu.Lock()
	defer exporterMu.Unlock()
	old, ok := exporters.Load().(exportersMap)
	if !ok {
		return
	}
	new := make(exportersMap)
	for k, v := range old {
		new[k] = v
	}
	delete(new, e)
	exporters.Store(new)
'''))
r('trace3/register-known',(EX,_REG,'''	exporterMu.Lock()
	defer exporterMu.Unlock()
	old, _ := exporters.Load().(exportersMap)
	if _, ok := old[e]; ok {
		return
	}
	new := make(exportersMap, len(old)+1)
	for k, v := range old {
		new[k] = v
	}
	new[e] = struct{}{}
	exporters.Store(new)
'''))
r('trace3/register-first',(EX,_REG,'''	exporterMu.Lock()
	defer exporterMu.Unlock()
	old, ok := exporters.Load().(exportersMap)
	if !ok {
		exporters.Store(exportersMap{e: {}})
		return
	}
	new := make(exportersMap, len(old)+1)
	for k, v := range old {
		new[k] = v
	}
	new[e] = struct{}{}
	exporters.Store(new)
'''))
_QA='''	if len(eq.queue) == eq.capacity {
		eq.queue = eq.queue[1:]
		eq.droppedCount++
	}
	eq.queue = append(eq.queue, value)
'''
r('trace3/queue-copy',(EQ,_QA,'''	if len(eq.queue) == eq.capacity {
		copy(eq.queue, eq.queue[1:])
		eq.queue = eq.queue[:len(eq.queue)-1]
		eq.droppedCount++
	}
	eq.queue = append(eq.queue, value)
'''))
r('trace3/queue-copy-put',(EQ,_QA,'''	if n := len(eq.queue); n > 0 && n == eq.capacity {
		copy(eq.queue, eq.queue[1:])
		eq.queue[n-1] = value
		eq.droppedCount++
		return
	}
	eq.queue = append(eq.queue, value)
'''))
r('trace3/queue-new-array',(EQ,_QA,'''	q := eq.queue
	if len(q) == eq.capacity {
		q = q[1:]
		eq.droppedCount += 1
	}
	eq.queue = append(q, value)
'''))
