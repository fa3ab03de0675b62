#!/usr/bin/env python3
"""Edits that keep the behaviour: every check has to stay quiet on each.

    refactors.py [-p C01,C02] [NAME...]     apply each in a scratch worktree,
                                            run the stable tests and the checks
"""
import os, subprocess, sys, re, time

WT = os.environ.get('WT', '/tmp/wt')
DELTA = 'internal/infra/delta/'
INDEX = 'internal/infra/index/'
RECDB = 'internal/infra/recdb/'
DOM = 'internal/domain/'
API = 'internal/api/shard/'
R = {}


def sub(path, *pairs):
    def f():
        p = os.path.join(WT, path)
        s = open(p).read()
        for a, b in pairs:
            if s.count(a) < 1:
                raise SystemExit('%s: not found: %s' % (path, a[:80]))
            s = s.replace(a, b)
        open(p, 'w').write(s)
    return f


def func(path, head, body):
    """Replaces a whole function, found by the start of its first line."""
    def f():
        p = os.path.join(WT, path)
        s = open(p).read()
        i = s.index(head)
        j = s.index('\n}\n', i) + 3
        open(p, 'w').write(s[:i] + body.strip('\n') + '\n' + s[j:])
    return f


def append(path, text):
    def f():
        open(os.path.join(WT, path), 'a').write(text)
    return f


# --- namespace worker ---------------------------------------------------------
R['worker-extracted'] = [
    func(DOM + 'likenamespace.go', 'func (ns *likeNamespace) Start(', '''
func (ns *likeNamespace) Start(ctx context.Context) error {
	if ns.likeStorageFactory == nil {
		return errors.New("there is no like storage to start the namespace with")
	}
	if ns.hasStopped() {
		return errNamespaceStopped
	}
	opened, err := ns.openAll()
	if err != nil {
		return err
	}
	go ns.run(ctx, opened)
	return nil
}

type openedStorages struct {
	delta DeltaStorage
	index IndexStorage
	like  LikeStorage
}

func (o *openedStorages) closeAll() {
	if o.index != nil {
		o.index.Close()
	}
	if o.delta != nil {
		o.delta.Close()
	}
	if o.like != nil {
		o.like.Close()
	}
}

func (ns *likeNamespace) hasStopped() bool {
	select {
	case <-ns.stopped:
		return true
	default:
		return false
	}
}

func (ns *likeNamespace) openAll() (_ *openedStorages, err error) {
	o := &openedStorages{}
	defer func() {
		if err != nil {
			o.closeAll()
		}
	}()
	if o.delta, err = ns.openMaybeRecoverDeltaStorage(); err != nil {
		o.delta = nil
		return nil, err
	}
	if o.index, err = ns.openMaybeResetIndexStorage(); err != nil {
		o.index = nil
		return nil, err
	}
	if o.like, err = ns.openMaybeRecoverLikeStorage(o.delta, o.index); err != nil {
		o.like = nil
		return nil, err
	}
	return o, nil
}

func (ns *likeNamespace) run(ctx context.Context, o *openedStorages) {
	defer func() {
		close(ns.stopped)
		log.Printf("LikeNamespace %s stopped\\n", ns.GetName())
		o.closeAll()
	}()
	for ctx.Err() == nil {
		select {
		case <-ns.stop:
			return
		default:
		}
		select {
		case <-ns.stop:
			return
		case <-ctx.Done():
			return
		case first := <-ns.action:
			batch := ns.collect(first)
			if err := o.like.ProcessActions(batch); err != nil {
				ns.sendErrorToUnansweredActionWaiters(batch, err)
			}
		}
	}
}

// collect waits a little for company for the first action.
func (ns *likeNamespace) collect(first Action) []Action {
	timer := time.NewTimer(ns.actionQueueFillWaitTime)
	defer timer.Stop()
	<-timer.C
	batch := []Action{first}
	for len(batch) < cap(ns.action)+1 {
		select {
		case a := <-ns.action:
			batch = append(batch, a)
			continue
		default:
		}
		break
	}
	return batch
}
'''),
]

R['worker-collects-meanwhile'] = [
    sub(DOM + 'likenamespace.go', ('''				time.Sleep(ns.actionQueueFillWaitTime)
				// Take out actions from the channel
				actions := make([]Action, len(ns.action)+1)
				actions[0] = action
				// Warning. We cannot iterate through the queue itself here!
				for i := 1; i < len(actions); i++ {
					actions[i] = <-ns.action
				}
''', '''				actions := []Action{action}
				deadline := time.After(ns.actionQueueFillWaitTime)
			fill:
				for len(actions) < cap(ns.action) {
					select {
					case more := <-ns.action:
						actions = append(actions, more)
					case <-deadline:
						break fill
					}
				}
''')),
]

R['worker-own-mutex-and-once'] = [
    sub(DOM + 'likenamespace.go',
        ('	stopOnce                sync.Once\n', '	stopMutex               sync.Mutex\n	stopping                bool\n'),
        ('	ns.stopOnce.Do(func() { close(ns.stop) })\n', '''	ns.stopMutex.Lock()
	defer ns.stopMutex.Unlock()
	if ns.stopping {
		return
	}
	ns.stopping = true
	close(ns.stop)
''')),
]

R['worker-context-for-stop'] = [
    sub(DOM + 'likenamespace.go',
        ('	stop                    chan struct{} // closed to stop the worker\n	stopOnce                sync.Once\n',
         '	stopCtx                 context.Context\n	cancelStop              context.CancelFunc\n'),
        ('		stop:                    make(chan struct{}),\n', ''),
        ('	// Set defaults\n	if ns.maxSim', '	ns.stopCtx, ns.cancelStop = context.WithCancel(context.Background())\n	if ns.maxSim'),
        ('<-ns.stop:', '<-ns.stopCtx.Done():'),
        ('ns.stopOnce.Do(func() { close(ns.stop) })', 'ns.cancelStop()')),
]

R['answers-generic'] = [
    func(DOM + 'likenamespace.go', 'func (ns *likeNamespace) GetProfile(', '''
func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
	answer := make(chan *Profile, 1)
	return ask(ns, ActionGetProfile, GetProfilePayload{user, answer}, answer)
}

func ask[T any](ns *likeNamespace, kind ActionType, payload any, answer chan T) (T, error) {
	var none T
	errs := make(chan error, 1)
	if !ns.sendAction(Action{ActionType: kind, Error: errs, Payload: payload}) {
		return none, errNamespaceStopped
	}
	select {
	case v := <-answer:
		return v, nil
	case err := <-errs:
		return none, err
	case <-ns.stopped:
	}
	select {
	case v := <-answer:
		return v, nil
	case err := <-errs:
		return none, err
	default:
		return none, errNamespaceStopped
	}
}
'''),
    func(DOM + 'likenamespace.go', 'func (ns *likeNamespace) GetSimilarProfiles(', '''
func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, error) {
	answer := make(chan *[]SimilarProfile, 1)
	return ask(ns, ActionGetSimilarProfiles, GetSimilarProfilesPayload{user, answer}, answer)
}
'''),
    func(DOM + 'likenamespace.go', 'func (ns *likeNamespace) RecommendItems(', '''
func (ns *likeNamespace) RecommendItems(user uint64) (*[]RecItem, error) {
	answer := make(chan *[]RecItem, 1)
	return ask(ns, ActionRecommendItems, RecommendItemsPayload{user, answer}, answer)
}
'''),
]

R['settings-guarded-by-namespace'] = [
    sub(DOM + 'likenamespace.go',
        ('type likeNamespace struct {\n', 'type likeNamespace struct {\n	settings                sync.RWMutex\n'),
        ('	return ns.name\n', '	ns.settings.RLock()\n	defer ns.settings.RUnlock()\n	return ns.name\n'),
        ('	ns.name = name\n', '	ns.settings.Lock()\n	ns.name = name\n	ns.settings.Unlock()\n'),
        ('	ns.maxSimilarProfiles = limit\n', '	ns.settings.Lock()\n	defer ns.settings.Unlock()\n	ns.maxSimilarProfiles = limit\n'),
        ('	return ns.maxSimilarProfiles\n', '	ns.settings.RLock()\n	defer ns.settings.RUnlock()\n	return ns.maxSimilarProfiles\n'),
        ('	ns.dislikeFactor = value\n', '	ns.settings.Lock()\n	defer ns.settings.Unlock()\n	ns.dislikeFactor = value\n'),
        ('	return ns.dislikeFactor\n', '	ns.settings.RLock()\n	defer ns.settings.RUnlock()\n	return ns.dislikeFactor\n')),
]

R['start-opens-with-helper'] = [
    func(DOM + 'likenamespace.go', 'func (ns *likeNamespace) openMaybeRecoverDeltaStorage(', '''
func (ns *likeNamespace) path(ext string) string {
	return ns.basePath + ns.name.Value() + "." + ext
}

func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
	path := ns.path("delta")
	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return nil, fmt.Errorf("cannot open %q: %w", path, err)
	}
	if storage, err := ns.deltaStorageFactory.OpenMaybeRecover(file); err == nil {
		return &fileDeltaStorage{DeltaStorage: storage, file: file}, nil
	} else {
		file.Close()
		return nil, fmt.Errorf("cannot read %q: %w", path, err)
	}
}
'''),
    func(DOM + 'likenamespace.go', 'func (ns *likeNamespace) openMaybeResetIndexStorage(', '''
func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
	storage, err := ns.tryIndex(0)
	if err != nil && errors.Is(err, NewCorruptedFileError()) {
		storage, err = ns.tryIndex(os.O_TRUNC)
	}
	return storage, err
}

func (ns *likeNamespace) tryIndex(extra int) (IndexStorage, error) {
	path := ns.path("index")
	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|extra, 0644)
	if err != nil {
		return nil, fmt.Errorf("cannot open %q: %w", path, err)
	}
	storage, err := ns.indexStorageFactory.Open(file, file)
	if err != nil {
		file.Close()
		return nil, fmt.Errorf("cannot read %q: %w", path, err)
	}
	return storage, nil
}
'''),
]

# --- registry -----------------------------------------------------------------
R['registry-mutex'] = [
    sub(DOM + 'namespaceservice.go', ('sync.RWMutex', 'sync.Mutex'), ('RLock()', 'Lock()'), ('RUnlock()', 'Unlock()')),
]

R['registry-temp-file'] = [
    sub(DOM + 'namespaceservice.go', ('''	err = os.WriteFile(filePath+".tmp", data, 0644)
	if err != nil {
		return fmt.Errorf("failed to write to %s: %v", filePath, err)
	}
	err = os.Rename(filePath+".tmp", filePath)
	if err != nil {
		return fmt.Errorf("failed to replace %s: %v", filePath, err)
	}
	return nil
''', '''	return replaceFile(filePath, data)
'''), ('	"os"\n', '	"os"\n	"path/filepath"\n')),
    append(DOM + 'namespaceservice.go', '''
func replaceFile(path string, data []byte) (err error) {
	tmp, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".*.tmp")
	if err != nil {
		return fmt.Errorf("no temporary file for %s: %w", path, err)
	}
	defer func() {
		if err != nil {
			os.Remove(tmp.Name())
		}
	}()
	if err = tmp.Chmod(0644); err != nil {
		tmp.Close()
		return err
	}
	if _, err = tmp.Write(data); err != nil {
		tmp.Close()
		return fmt.Errorf("writing %s: %w", tmp.Name(), err)
	}
	if err = tmp.Sync(); err != nil {
		tmp.Close()
		return fmt.Errorf("syncing %s: %w", tmp.Name(), err)
	}
	if err = tmp.Close(); err != nil {
		return fmt.Errorf("closing %s: %w", tmp.Name(), err)
	}
	if err = os.Rename(tmp.Name(), path); err != nil {
		return fmt.Errorf("replacing %s: %w", path, err)
	}
	return nil
}
'''),
]

R['registry-streams'] = [
    sub(DOM + 'namespaceservice.go', ('''	err = os.WriteFile(filePath+".tmp", data, 0644)
	if err != nil {
''', '''	err = writeAll(filePath+".tmp", data)
	if err != nil {
'''), ('''	data, err := os.ReadFile(filePath)
	if err != nil {
''', '''	data, err := readAll(filePath)
	if err != nil {
'''), ('	"fmt"\n', '	"fmt"\n	"io"\n	"bufio"\n')),
    append(DOM + 'namespaceservice.go', '''
func writeAll(path string, data []byte) error {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
	w := bufio.NewWriterSize(f, 128)
	if _, err := w.Write(data); err != nil {
		f.Close()
		return err
	}
	if err := w.Flush(); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

func readAll(path string) ([]byte, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(bufio.NewReader(f))
}
'''),
]

R['registry-copy-on-write'] = [
    func(DOM + 'namespaceservice.go', 'func (s *NamespaceService) CreateNamespace(', '''
func (s *NamespaceService) CreateNamespace(dto *NamespaceCreateRequest) (Namespace, error) {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	if s.find(dto.Name) != nil {
		return nil, fmt.Errorf("name %s is in use", dto.Name.Value())
	}
	ns, err := s.forgeNamespace(dto)
	if err != nil {
		return nil, err
	}
	old := s.namespaces
	s.namespaces = append(append(make([]Namespace, 0, len(old)+1), old...), ns)
	if err = s.saveNamespaces(); err != nil {
		s.namespaces = old
		return nil, err
	}
	return newNamespaceSnapshot(ns), nil
}

func (s *NamespaceService) find(name valueobjects.NamespaceName) Namespace {
	if i := s.getNamespaceIndexByName(name); i >= 0 {
		return s.namespaces[i]
	}
	return nil
}
'''),
    func(DOM + 'namespaceservice.go', 'func (s *NamespaceService) DeleteNamespace(', '''
func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) error {
	ns, err := s.unregister(name)
	if err == nil {
		ns.Stop()
	}
	return err
}

func (s *NamespaceService) unregister(name valueobjects.NamespaceName) (Namespace, error) {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	var gone Namespace
	var rest []Namespace
	for _, ns := range s.namespaces {
		if ns.GetName() == name {
			gone = ns
		} else {
			rest = append(rest, ns)
		}
	}
	if gone == nil {
		return nil, fmt.Errorf("no such namespace: %s", name.Value())
	}
	old := s.namespaces
	s.namespaces = rest
	if err := s.saveNamespaces(); err != nil {
		s.namespaces = old
		return nil, err
	}
	return gone, nil
}
'''),
    sub(DOM + 'namespaceservice.go', ('	"recengine/internal/helpers"\n', '')),
]

R['registry-map-beside-list'] = [
    sub(DOM + 'namespaceservice.go',
        ('	for i, ns := range s.namespaces {\n		if ns.GetName() == name {\n			return i\n		}\n	}\n	return -1\n',
         '''	byName := make(map[valueobjects.NamespaceName]int, len(s.namespaces))
	for i := range s.namespaces {
		byName[s.namespaces[i].GetName()] = i
	}
	if i, ok := byName[name]; ok {
		return i
	}
	return -1
''')),
]

R['registry-indented-json'] = [
    sub(DOM + 'namespaceservice.go', ('data, err := json.Marshal(records)', 'data, err := json.MarshalIndent(records, "", "  ")')),
]

R['update-handler-helper'] = [
    func(API + 'endpoints/namespaceendpoint.go', 'func (endpoint *NamespaceEndpoint) Update(', '''
func (endpoint *NamespaceEndpoint) Update(ctx *gin.Context) {
	ns, ok := endpoint.lookup(ctx)
	if !ok {
		return
	}
	req := new(dto.NamespaceUpdateRequest)
	if err := ctx.ShouldBindJSON(req); err != nil {
		AbortWithBindingErrors(ctx, err)
		return
	}
	change, err := req.ToDomain()
	if err != nil {
		AbortWithValidationError(ctx, err)
		return
	}
	renamed := change.Name != ns.GetName()
	if renamed && endpoint.nsService.GetNamespaceByName(change.Name) != nil {
		ctx.IndentedJSON(http.StatusNotFound, dto.Error{Message: "namespace name taken"})
		return
	}
	updated, err := endpoint.nsService.UpdateNamespace(ns.GetName(), change)
	if err != nil {
		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
		return
	}
	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceResponse(updated))
}

func (endpoint *NamespaceEndpoint) lookup(ctx *gin.Context) (domain.Namespace, bool) {
	name, err := valueobjects.ParseNamespaceName(ctx.Param("namespace"))
	if err != nil {
		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
		return nil, false
	}
	if ns := endpoint.nsService.GetNamespaceByName(name); ns != nil {
		return ns, true
	}
	ctx.IndentedJSON(http.StatusNotFound, dto.Error{Message: "namespace not found"})
	return nil, false
}
'''),
    sub(API + 'dto/namespaceresponse.go', ('''	responses := make([]NamespaceResponse, len(namespaces))
	for i := range namespaces {
		responses[i] = *NewNamespaceResponse(namespaces[i])
	}
	return responses
''', '''	responses := []NamespaceResponse{}
	for _, ns := range namespaces {
		responses = append(responses, *NewNamespaceResponse(ns))
	}
	return responses
''')),
]

# --- application ---------------------------------------------------------------
R['app-notify-context'] = [
    func(API + 'application.go', 'func (srv *Application) Run(', '''
func (srv *Application) Run() error {
	sigCtx, stop := signal.NotifyContext(context.Background(), os.Interrupt, syscall.SIGTERM)
	defer stop()
	result := make(chan error, 1)
	go srv.serve(result)
	select {
	case err := <-result:
		return err
	case <-sigCtx.Done():
	}
	return srv.shutdown(result)
}

func (srv *Application) serve(result chan<- error) {
	err := srv.httpSrv.ListenAndServe()
	if errors.Is(err, http.ErrServerClosed) {
		err = nil
	}
	if err != nil {
		err = fmt.Errorf("listening: %w", err)
	}
	result <- err
}

func (srv *Application) shutdown(result <-chan error) error {
	log.Println("Shutting down")
	ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(5*time.Second))
	defer cancel()
	if err := srv.httpSrv.Shutdown(ctx); err != nil {
		return fmt.Errorf("shutdown: %w", err)
	}
	select {
	case err := <-result:
		return err
	case <-ctx.Done():
		return fmt.Errorf("shutdown: %w", ctx.Err())
	}
}
'''),
    sub(API + 'application.go', ('import (\n', 'import (\n	"errors"\n')),
]

R['app-own-listener'] = [
    sub(API + 'application.go',
        ('if err := srv.httpSrv.ListenAndServe(); err != nil && err != http.ErrServerClosed {', 'if err := listenAndServe(srv.httpSrv); err != nil && err != http.ErrServerClosed {'),
        ('	"net/http"\n', '	"net"\n	"net/http"\n')),
    append(API + 'application.go', '''
func listenAndServe(srv *http.Server) error {
	l, err := net.Listen("tcp", srv.Addr)
	if err != nil {
		return err
	}
	log.Printf("Listening on %s", l.Addr())
	return srv.Serve(l)
}
'''),
]

R['app-waitgroup'] = [
    func(API + 'application.go', 'func (srv *Application) Run(', '''
func (srv *Application) Run() error {
	quit := make(chan os.Signal, 1)
	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
	defer signal.Stop(quit)
	var wg sync.WaitGroup
	var listenErr error
	ended := make(chan struct{})
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer close(ended)
		if err := srv.httpSrv.ListenAndServe(); err != http.ErrServerClosed {
			listenErr = err
		}
	}()
	select {
	case <-ended:
		wg.Wait()
		return listenErr
	case s := <-quit:
		log.Printf("Got %v", s)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	if err := srv.httpSrv.Shutdown(ctx); err != nil {
		return err
	}
	wg.Wait()
	return listenErr
}
'''),
    sub(API + 'application.go', ('	"syscall"\n', '	"sync"\n	"syscall"\n'), ('	"fmt"\n', '')),
]

R['main-returns-errors'] = [
    sub('main.go', ('''func runShard() {
''', '''func runShard() error {
'''), ('''		log.Fatalf("Error loading namespaces: %v\\n", err)
''', '''		return fmt.Errorf("loading namespaces: %w", err)
'''), ('''		log.Fatalf("Error running namespace service: %v\\n", err)
''', '''		return fmt.Errorf("running namespace service: %w", err)
'''), ('''	if err := app.Run(); err != nil {
		log.Fatalf("Error running shard application: %v\\n", err)
	}
}
''', '''	if err := app.Run(); err != nil {
		return fmt.Errorf("running: %w", err)
	}
	return nil
}
'''), ('''	runShard()
}''', '''	logger := log.New(os.Stderr, "shard: ", log.LstdFlags)
	if err := runShard(); err != nil {
		logger.Fatalln(err)
	}
}'''), ('	"errors"\n', '	"errors"\n	"fmt"\n')),
]

R['app-own-gin'] = [
    sub(API + 'application.go', ('	engine := gin.Default()\n', '''	engine := gin.New()
	engine.Use(requestLog(slog.New(slog.NewTextHandler(io.Discard, nil))), gin.CustomRecovery(func(c *gin.Context, err any) {
		c.AbortWithStatus(http.StatusInternalServerError)
	}))
'''), ('''		Handler: engine,
''', '''		Handler: counting{engine, new(atomic.Int64)},
		ErrorLog: log.New(os.Stderr, "http: ", log.LstdFlags),
		BaseContext: func(net.Listener) context.Context {
			return context.WithValue(context.Background(), ctxKey("server"), "shard")
		},
'''), ('	"log"\n', '	"io"\n	"log"\n	"log/slog"\n	"net"\n	"sync/atomic"\n')),
    append(API + 'application.go', '''
type ctxKey string

type counting struct {
	next http.Handler
	n    *atomic.Int64
}

type statusWriter struct {
	http.ResponseWriter
	status int
}

func (w *statusWriter) WriteHeader(status int) {
	w.status = status
	w.ResponseWriter.WriteHeader(status)
}

func (c counting) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	n := c.n.Add(1)
	sw := &statusWriter{ResponseWriter: w, status: http.StatusOK}
	defer func() {
		if sw.status >= 500 {
			log.Printf("Request %d: %s %s: %d", n, r.Method, r.URL.Path, sw.status)
		}
	}()
	c.next.ServeHTTP(sw, r.WithContext(context.WithValue(r.Context(), ctxKey("request"), n)))
}

func requestLog(logger *slog.Logger) gin.HandlerFunc {
	return func(c *gin.Context) {
		start := time.Now()
		c.Next()
		logger.Info("request", "path", c.FullPath(), "status", c.Writer.Status(), "errors", len(c.Errors), "took", time.Since(start))
	}
}
'''),
]

R['endpoints-decode-by-hand'] = [
    sub(API + 'endpoints/namespaceendpoint.go',
        ('ctx.ShouldBindJSON(&req)', 'bindBody(ctx, &req)'),
        ('''	router.GET("/api/v1/namespaces", func(ctx *gin.Context) {
		endpoint.List(ctx)
	})
	router.POST("/api/v1/namespaces", func(ctx *gin.Context) {
		endpoint.Create(ctx)
	})
	router.GET("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
		endpoint.Get(ctx)
	})
	router.PUT("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
		endpoint.Update(ctx)
	})
''', '''	api := router.Group("/api/v1/namespaces")
	for _, r := range []struct {
		method, path string
		handler      gin.HandlerFunc
	}{
		{http.MethodGet, "", endpoint.List},
		{http.MethodPost, "", endpoint.Create},
		{http.MethodGet, "/:namespace", endpoint.Get},
		{http.MethodPut, "/:namespace", endpoint.Update},
	} {
		api.Handle(r.method, r.path, r.handler)
	}
''')),
    append(API + 'endpoints/helpers.go', '''
var bodies = sync.Pool{New: func() any { return new(bytes.Buffer) }}

// Reads the whole body, then decodes and validates it.
func bindBody[T any](ctx *gin.Context, to *T) error {
	if ctx.Request.Body == nil {
		return errors.New("no body")
	}
	buf := bodies.Get().(*bytes.Buffer)
	defer bodies.Put(buf)
	buf.Reset()
	if _, err := io.Copy(buf, ctx.Request.Body); err != nil {
		return fmt.Errorf("reading the request: %w", err)
	}
	if err := json.NewDecoder(buf).Decode(to); err != nil {
		return err
	}
	return binding.Validator.ValidateStruct(to)
}
'''),
    sub(API + 'endpoints/helpers.go', ('	"errors"\n', '	"bytes"\n	"encoding/json"\n	"errors"\n	"fmt"\n	"io"\n	"sync"\n'),
        ('	"github.com/gin-gonic/gin"\n', '	"github.com/gin-gonic/gin"\n	"github.com/gin-gonic/gin/binding"\n')),
]

R['config-lookup'] = [
    func(API + 'config.go', 'func NewConfigFromEnv(', '''
func NewConfigFromEnv(defaults *Config) *Config {
	result := Config{defaultServerHost, defaultServerPort}
	if defaults != nil {
		result = *defaults
	}
	env := map[string]string{}
	for _, kv := range os.Environ() {
		if name, value, ok := strings.Cut(kv, "="); ok {
			env[name] = value
		}
	}
	if host, ok := env["REC_HOST"]; ok && len(host) > 0 {
		result.Host = host
	}
	if port, err := strconv.ParseInt(env["REC_PORT"], 10, 0); err == nil && port >= 0 {
		result.Port = int(port)
	}
	return &result
}
'''),
    func(API + 'config.go', 'func (c *Config) GetHostPort(', '''
func (c *Config) GetHostPort() string {
	return net.JoinHostPort(strings.TrimSuffix(strings.TrimPrefix(c.Host, "["), "]"), fmt.Sprint(c.Port))
}
'''),
    sub(API + 'config.go', ('	"os"\n', '	"fmt"\n	"net"\n	"os"\n')),
]

R['service-start-parallel'] = [
    func(DOM + 'namespaceservice.go', 'func (s *NamespaceService) Start(', '''
func (s *NamespaceService) Start(ctx context.Context) error {
	var wg sync.WaitGroup
	failed := make(chan error, len(s.namespaces))
	for _, ns := range s.namespaces {
		wg.Add(1)
		go func(ns Namespace) {
			defer wg.Done()
			if err := ns.Start(ctx); err != nil {
				failed <- fmt.Errorf("%s: %w", ns.GetName().Value(), err)
			}
		}(ns)
	}
	wg.Wait()
	close(failed)
	for err := range failed {
		log.Printf("Failed to start namespace %v\\n", err)
	}
	return nil
}
'''),
]

R['load-streams-and-stats'] = [
    sub(DOM + 'namespaceservice.go', ('''	data, err := os.ReadFile(filePath)
	if err != nil {
		return fmt.Errorf("failed to open %s: %w", filePath, err)
	}
	var records []namespaceRecord
	err = json.Unmarshal(data, &records)
	if err != nil {
		return fmt.Errorf("failed to decode %s: %v", filePath, err)
	}
''', '''	file, err := os.Open(filePath)
	if err != nil {
		return fmt.Errorf("failed to open %s: %w", filePath, err)
	}
	defer func() {
		if err := file.Close(); err != nil {
			log.Println(err)
		}
	}()
	info, err := file.Stat()
	if err != nil {
		return fmt.Errorf("failed to stat %s: %w", filePath, err)
	}
	data := make([]byte, info.Size())
	if _, err := io.ReadFull(bufio.NewReaderSize(file, 1000), data); err != nil {
		return fmt.Errorf("failed to read %s: %w", filePath, err)
	}
	var records []namespaceRecord
	if err = json.Unmarshal(data, &records); err != nil {
		return fmt.Errorf("failed to decode %s: %v", filePath, err)
	}
'''), ('	"encoding/json"\n', '	"bufio"\n	"encoding/json"\n	"io"\n')),
]

# --- delta ---------------------------------------------------------------------
R['delta-one-write'] = [
    func(DELTA + 'storage.go', 'func (s *storage) flushEntries(', '''
func (s *storage) flushEntries() error {
	users := make([]uint64, 0, len(s.newDelta))
	for user := range s.newDelta {
		users = append(users, user)
	}
	sort.Slice(users, func(i, j int) bool { return users[i] < users[j] })
	var buf bytes.Buffer
	for _, user := range users {
		for _, d := range s.newDelta[user] {
			if err := s.proto.WriteEntry(&Entry{Op: d.op, UserID: user, ItemID: d.item}, &buf); err != nil {
				return fmt.Errorf("encoding: %w", err)
			}
		}
	}
	end := int64(s.GetFileSize()) - int64(s.unflushedItemCount*entrySize)
	if _, err := s.file.Seek(end, io.SeekStart); err != nil {
		return fmt.Errorf("seeking: %w", err)
	}
	if _, err := s.file.Write(buf.Bytes()); err != nil {
		return fmt.Errorf("writing: %w", err)
	}
	for _, user := range users {
		s.deltaCache[user] = append(s.deltaCache[user], s.newDelta[user]...)
		delete(s.newDelta, user)
	}
	s.unflushedItemCount = 0
	return nil
}
'''),
    func(DELTA + 'storage.go', 'func (s *storage) flushHeader(', '''
func (s *storage) flushHeader() error {
	var buf bytes.Buffer
	if err := s.proto.WriteHeader(&Header{Version, 1, uint32(s.totalItemCount)}, &buf); err != nil {
		return err
	}
	if _, err := s.file.Seek(int64(len(prefix)), io.SeekStart); err != nil {
		return err
	}
	_, err := s.file.Write(buf.Bytes())
	return err
}
'''),
    sub(DELTA + 'storage.go', ('	"bufio"\n', '	"bytes"\n	"sort"\n')),
]

R['delta-reads-all'] = [
    sub(DELTA + 'storagefactory.go', ('''		entry := Entry{}
		for i := 0; i < int(hdr.NumEntries); i++ {
			err = f.proto.ReadEntry(&entry, file)
			if err != nil {
				return nil, fmt.Errorf("cannot read %dth entry: %v", i, err)
			}
			items, exists := storage.deltaCache[entry.UserID]
			if !exists {
				items = make([]itemDelta, 0, 100)
				storage.deltaCache[entry.UserID] = items
			}
			storage.deltaCache[entry.UserID] = append(items, itemDelta{
				op:   entry.Op,
				item: entry.ItemID,
			})
		}
''', '''		rest := bufio.NewReader(file)
		for n := hdr.NumEntries; n > 0; n-- {
			var entry Entry
			if err := f.proto.ReadEntry(&entry, rest); err != nil {
				return nil, fmt.Errorf("cannot read an entry, %d left: %w", n, err)
			}
			storage.deltaCache[entry.UserID] = append(storage.deltaCache[entry.UserID], itemDelta{entry.ItemID, entry.Op})
		}
'''), ('	"errors"\n', '	"bufio"\n	"errors"\n')),
]

R['delta-recovers-into-bytes'] = [
    func(DELTA + 'storagefactory.go', 'func (f *storageFactory) Recover(', '''
func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
	if _, err := file.Seek(0, io.SeekStart); err != nil {
		return err
	}
	good := helpers.NewFileBuffer(nil)
	if err := f.proto.RecoverTo(bufio.NewReaderSize(file, 64), good); err != nil {
		return err
	}
	if err := f.proto.WriteLocked(true, good); err != nil {
		return err
	}
	if _, err := file.Seek(0, io.SeekStart); err != nil {
		return err
	}
	content := good.Bytes()
	if n, err := file.Write(content); err != nil {
		return err
	} else if n < len(content) {
		return io.ErrShortWrite
	}
	if err := file.Truncate(int64(len(content))); err != nil {
		return err
	}
	if err := f.proto.WriteLocked(false, file); err != nil {
		return err
	}
	_, err := file.Seek(0, io.SeekStart)
	return err
}
'''),
    sub(DELTA + 'storagefactory.go', ('	"errors"\n', '	"bufio"\n	"errors"\n')),
]

R['delta-entry-bytes'] = [
    func(DELTA + 'protocol.go', 'func (p *protocol) WriteEntry(', '''
func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) error {
	var b [entrySize]byte
	b[0] = byte(entry.Op)
	binary.BigEndian.PutUint64(b[1:], entry.UserID)
	binary.BigEndian.PutUint64(b[9:], entry.ItemID)
	b[17] = p.CalcEntryChecksum(entry)
	_, err := writer.Write(b[:])
	return err
}
'''),
    func(DELTA + 'protocol.go', 'func (p *protocol) ReadEntry(', '''
func (p *protocol) ReadEntry(entry *Entry, reader io.Reader) error {
	b := make([]byte, entrySize)
	if _, err := io.ReadFull(reader, b); err != nil {
		return err
	}
	*entry = Entry{
		Op:       domain.DeltaOp(b[0]),
		UserID:   binary.BigEndian.Uint64(b[1:9]),
		ItemID:   binary.BigEndian.Uint64(b[9:17]),
		Checksum: b[17],
	}
	return nil
}
'''),
    func(DELTA + 'protocol.go', 'func (p *protocol) WriteHeader(', '''
func (p *protocol) WriteHeader(header *Header, writer io.Writer) error {
	b := []byte{header.Version, header.Locked}
	b = binary.BigEndian.AppendUint32(b, header.NumEntries)
	_, err := writer.Write(b)
	return err
}
'''),
]

R['delta-map-of-maps'] = [
    func(DELTA + 'storage.go', 'func (s *storage) Get(', '''
func (s *storage) Get(user uint64, item uint64) (domain.DeltaOp, bool) {
	if op, ok := last(s.newDelta[user], item); ok {
		return op, true
	}
	return last(s.deltaCache[user], item)
}

func last(deltas []itemDelta, item uint64) (domain.DeltaOp, bool) {
	for i := len(deltas) - 1; i >= 0; i-- {
		if deltas[i].item == item {
			return deltas[i].op, true
		}
	}
	return domain.DeltaOpAdd, false
}
'''),
    func(DELTA + 'storage.go', 'func (s *storage) Add(', '''
func (s *storage) Add(op domain.DeltaOp, user uint64, item uint64) {
	pending := s.newDelta[user]
	for i, d := range pending {
		if d.item == item {
			pending[i] = itemDelta{item: item, op: op}
			return
		}
	}
	s.newDelta[user] = append(pending, itemDelta{item: item, op: op})
	s.totalItemCount++
	s.unflushedItemCount++
}
'''),
    func(DELTA + 'storage.go', 'func (s *storage) GetUserCount(', '''
func (s *storage) GetUserCount() int {
	users := make(map[uint64]bool)
	for user := range s.deltaCache {
		users[user] = true
	}
	for user := range s.newDelta {
		users[user] = true
	}
	return len(users)
}
'''),
    sub(DELTA + 'storage.go', ('	fmt.Println(s)\n', '')),
]

R['delta-nothing-to-flush'] = [
    sub(DELTA + 'storage.go', ('''func (s *storage) Flush() error {
''', '''func (s *storage) Flush() error {
	if s.unflushedItemCount == 0 && len(s.newDelta) == 0 && s.clean {
		return nil
	}
'''), ('''	s.newDelta = make(map[uint64][]itemDelta)
	return nil
''', '''	s.newDelta = make(map[uint64][]itemDelta)
	s.clean = true
	return nil
'''), ('''	s.unflushedItemCount++
''', '''	s.unflushedItemCount++
	s.clean = false
'''), ('''	file domain.RandomAccessFile
''', '''	file domain.RandomAccessFile
	// Nothing changed since the last flush.
	clean bool
''')),
]

R['delta-create-at-once'] = [
    sub(DELTA + 'storagefactory.go', ('''		err = f.proto.WritePrefix(file)
		if err != nil {
			return nil, err
		}
		hdr := Header{
			Version:    Version,
			Locked:     0,
			NumEntries: 0,
		}
		err = f.proto.WriteHeader(&hdr, file)
		if err != nil {
			return nil, err
		}
''', '''		w := bufio.NewWriter(file)
		if err := f.proto.WritePrefix(w); err != nil {
			return nil, err
		}
		if err := f.proto.WriteHeader(&Header{Version: Version}, w); err != nil {
			return nil, err
		}
		if err := w.Flush(); err != nil {
			return nil, err
		}
'''), ('	"errors"\n', '	"bufio"\n	"errors"\n')),
]

# --- index ----------------------------------------------------------------------
R['index-sorted-close'] = [
    func(INDEX + 'storage.go', 'func (s *storage) Close(', '''
func (s *storage) Close() (err error) {
	defer func() {
		if s.closer == nil {
			return
		}
		if cerr := s.closer.Close(); err == nil {
			err = cerr
		}
	}()
	for _, step := range []func() error{
		s.saveEntries,
		func() error { return s.saveHeader(true) },
		func() error { return s.proto.WriteLocked(false, s.file) },
	} {
		if err := step(); err != nil {
			return fmt.Errorf("closing index: %w", err)
		}
	}
	return nil
}
'''),
    func(INDEX + 'storage.go', 'func (s *storage) saveHeader(', '''
func (s *storage) saveHeader(locked bool) error {
	header := Header{Version: Version, NumEntries: uint32(len(s.indices))}
	if locked {
		header.Locked = 1
	}
	var b bytes.Buffer
	if _, err := s.proto.WriteHeader(&header, &b); err != nil {
		return err
	}
	if _, err := s.file.Seek(int64(len(prefix)), io.SeekStart); err != nil {
		return err
	}
	_, err := s.file.Write(b.Bytes())
	return err
}
'''),
    func(INDEX + 'storage.go', 'func (s *storage) saveEntries(', '''
func (s *storage) saveEntries() error {
	ids := make([]uint64, 0, len(s.indices))
	for id := range s.indices {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	var b bytes.Buffer
	for _, id := range ids {
		if _, err := s.proto.WriteEntry(&Entry{id, s.indices[id]}, &b); err != nil {
			return err
		}
	}
	if _, err := s.file.Seek(int64(entriesOffset), io.SeekStart); err != nil {
		return err
	}
	_, err := b.WriteTo(s.file)
	return err
}
'''),
    sub(INDEX + 'storage.go', ('	"bufio"\n', '	"bufio"\n	"bytes"\n	"sort"\n')),
]

R['index-loads-by-hand'] = [
    func(INDEX + 'protocol.go', 'func (p *protocol) ReadEntry(', '''
func (p *protocol) ReadEntry(entry *Entry, reader io.Reader) (int, error) {
	var b [entrySize]byte
	if _, err := io.ReadFull(reader, b[:]); err != nil {
		return 0, err
	}
	entry.ID = binary.BigEndian.Uint64(b[:8])
	entry.Index = binary.BigEndian.Uint64(b[8:])
	return len(b), nil
}
'''),
    func(INDEX + 'protocol.go', 'func (p *protocol) WriteEntry(', '''
func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) (int, error) {
	b := binary.BigEndian.AppendUint64(nil, entry.ID)
	b = binary.BigEndian.AppendUint64(b, entry.Index)
	if _, err := writer.Write(b); err != nil {
		return 0, err
	}
	return len(b), nil
}
'''),
    func(INDEX + 'storage.go', 'func (s *storage) Remove(', '''
func (s *storage) Remove(id uint64) error {
	delete(s.indices, id)
	return nil
}
'''),
    sub(INDEX + 'storage.go', ('''	entry := Entry{}
	offset := int64(entriesOffset)
	var size int
	for i := uint(0); i < uint(header.NumEntries); i++ {
		size, err = s.proto.ReadEntry(&entry, reader)
		offset += int64(size)
		if err != nil {
			return fmt.Errorf("failed to read index entry: %w", markTruncated(err))
		}
		s.indices[entry.ID] = entry.Index
	}
''', '''	loaded := map[uint64]uint64{}
	for left := header.NumEntries; left > 0; left-- {
		var entry Entry
		if _, err = s.proto.ReadEntry(&entry, reader); err != nil {
			return fmt.Errorf("failed to read index entry: %w", markTruncated(err))
		}
		loaded[entry.ID] = entry.Index
	}
	s.indices = loaded
''')),
]

R['index-lock-first'] = [
    # The lock goes in before the entries are read and comes off if that fails.
    sub(INDEX + 'storagefactory.go', ('''	size, err := file.Seek(0, io.SeekEnd)
	if err != nil {
		if closer != nil {
			closer.Close()
		}
		return nil, err
	}
	if size > 0 {
		err = storage.load()
		if err != nil {
			if closer != nil {
				closer.Close()
			}
			return nil, fmt.Errorf("failed to load index: %w", err)
		}
	} else {
		err = storage.create()
		if err != nil {
			if closer != nil {
				closer.Close()
			}
			return nil, fmt.Errorf("failed to load index: %v", err)
		}
	}
	return storage, nil
''', '''	if err := storage.prepare(); err != nil {
		if closer != nil {
			closer.Close()
		}
		return nil, fmt.Errorf("failed to load index: %w", err)
	}
	return storage, nil
''')),
    append(INDEX + 'storagefactory.go', '''
func (s *storage) prepare() error {
	size, err := s.file.Seek(0, io.SeekEnd)
	switch {
	case err != nil:
		return err
	case size == 0:
		return s.create()
	default:
		return s.load()
	}
}
'''),
]

# --- recdb ------------------------------------------------------------------------
R['recdb-one-buffer'] = [
    func(RECDB + 'protocol.go', 'func (p *protocol) WriteEntry(', '''
func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) (int, error) {
	size, err := p.PredictEntrySize(entry)
	if err != nil {
		return 0, err
	}
	if uint64(size) > uint64(entry.Capacity) {
		return 0, fmt.Errorf("%d bytes do not fit into %d", size, entry.Capacity)
	}
	var b bytes.Buffer
	binary.Write(&b, binary.BigEndian, entry.Capacity)
	b.WriteByte(entry.Deleted)
	if _, err := p.concreteProto.WriteEntryData(entry, &b); err != nil {
		return 0, err
	}
	b.Write(make([]byte, int(entry.Capacity)-b.Len()))
	if _, err := writer.Write(b.Bytes()); err != nil {
		return 0, fmt.Errorf("failed to write database entry: %w", err)
	}
	return int(entry.Capacity), nil
}
'''),
    func(RECDB + 'protocol.go', 'func (p *protocol) ReadEntry(', '''
func (p *protocol) ReadEntry(entry *Entry, reader io.Reader) (int, error) {
	head := make([]byte, entryHeaderSize)
	if _, err := io.ReadFull(reader, head); err != nil {
		return 0, fmt.Errorf("entry header: %w", err)
	}
	entry.Capacity = binary.BigEndian.Uint32(head)
	entry.Deleted = head[4]
	n, err := p.concreteProto.ReadEntryData(entry, reader)
	if err != nil {
		return 0, fmt.Errorf("entry data: %w", err)
	}
	if _, err := io.CopyN(io.Discard, reader, int64(entry.Capacity)-entryHeaderSize-int64(n)); err != nil {
		return 0, fmt.Errorf("entry reserve: %w", err)
	}
	return int(entry.Capacity), nil
}
'''),
    sub(RECDB + 'protocol.go', ('	"bufio"\n', '	"bufio"\n	"bytes"\n'), ('	"recengine/internal/helpers"\n', '')),
]

R['recdb-unbuffered-iterator'] = [
    sub(RECDB + 'iterator.go', ('reader     *bufio.Reader', 'reader     io.Reader'),
        ('	reader := bufio.NewReader(file)\n	iter := &iterator{&header, file, reader,', '	iter := &iterator{&header, file, file,'),
        ('		iter.reader.Reset(iter.file)\n', ''),
        ('	iter.reader.Reset(iter.file)\n', ''),
        ('	"bufio"\n', '')),
]

R['recdb-always-seeks'] = [
    func(RECDB + 'iterator.go', 'func (iter *iterator) Next(', '''
func (iter *iterator) Next() (*Entry, error) {
	if iter.entryIndex >= int(iter.header.NumEntries) {
		return nil, errors.New("no entries left")
	}
	if _, err := iter.file.Seek(iter.fileOffset, io.SeekStart); err != nil {
		return nil, fmt.Errorf("failed to iterate next: %w", err)
	}
	iter.reader.Reset(iter.file)
	entry := new(Entry)
	size, err := iter.proto.ReadEntry(entry, iter.reader)
	if err != nil {
		return nil, fmt.Errorf("failed to iterate next: %w", err)
	}
	iter.entry = *entry
	iter.fileOffset += int64(size)
	iter.entryIndex++
	return entry, nil
}
'''),
    func(RECDB + 'iterator.go', 'func (iter *iterator) SetPrevious(', '''
func (iter *iterator) SetPrevious(entry *Entry) error {
	if iter.entryIndex < 1 {
		return errors.New("nothing to rewrite")
	}
	if entry.Capacity != iter.entry.Capacity {
		return errors.New("entry capacity mismatch")
	}
	start := iter.fileOffset - int64(iter.entry.Capacity)
	if _, err := iter.file.Seek(start, io.SeekStart); err != nil {
		return fmt.Errorf("failed to rewrite: %w", err)
	}
	if n, err := iter.proto.WriteEntry(entry, iter.file); err != nil {
		return fmt.Errorf("failed to rewrite: %w", err)
	} else if n != int(entry.Capacity) {
		return io.ErrShortWrite
	}
	return nil
}
'''),
]

R['recdb-items-by-chunks'] = [
    func(RECDB + 'likeprotocol.go', 'func (p *likeProtocol) readItems(', '''
func (p *likeProtocol) readItems(entry *Entry, length uint32, reader io.Reader) ([]uint64, error) {
	if uint64(length)*8+entryHeaderSize > uint64(entry.Capacity) {
		return nil, fmt.Errorf("%d items do not fit into %d bytes", length, entry.Capacity)
	}
	items := []uint64{}
	var b [8]byte
	for ; length > 0; length-- {
		if _, err := io.ReadFull(reader, b[:]); err != nil {
			return nil, err
		}
		items = append(items, binary.BigEndian.Uint64(b[:]))
	}
	return items, nil
}
'''),
    sub('internal/helpers/io.go', ('''	total := 0
	for total < size {
		chunk := size - total
		if chunk > len(zeros) {
			chunk = len(zeros)
		}
		written, err := writer.Write(zeros[:chunk])
		total += written
		if err != nil {
			return total, err
		}
	}
	return total, nil
''', '''	if size <= 0 {
		return 0, nil
	}
	return writer.Write(make([]byte, size))
''')),
]

R['comments-and-noops'] = [
    lambda: [open(os.path.join(WT, p), 'a').write('\n// One more comment.\n')
             for p in subprocess.run("git ls-files '*.go' | grep -v _test.go", shell=True, cwd=WT, capture_output=True, text=True).stdout.split()],
    lambda: noops(),
]


def noops():
    """A statement that does nothing at the start of every function."""
    for p in subprocess.run("git ls-files '*.go' | grep -v _test.go | grep -v docs", shell=True, cwd=WT, capture_output=True, text=True).stdout.split():
        p = os.path.join(WT, p)
        s = open(p).read()
        s = re.sub(r'(?m)^(func .*\{)$', r'\1\n\t_ = 0', s)
        open(p, 'w').write(s)


VROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = WT + '-ref'
os.makedirs(TMP, exist_ok=True)
BUILD = '. /opt/vp/env.sh; set -e; rm -rf %(t)s/src; mkdir %(t)s/src; cd %(h)s/instr; go build -o %(t)s/instr .; %(t)s/instr -src %(w)s -dst %(t)s/src -sim %(h)s/sim -harness %(h)s/harness; cd %(t)s/src; go build -trimpath -o %(t)s/dst ./internal/zzsim/harness; rm -rf %(t)s/src; mkdir %(t)s/src; %(t)s/instr -race -src %(w)s -dst %(t)s/src -sim %(h)s/sim -harness %(h)s/harness; cd %(t)s/src; go build -trimpath -o %(t)s/dstr ./internal/zzsim/harness' % {'t': TMP, 'h': VROOT, 'w': WT}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    args = sys.argv[1:]
    props = ['C%02d' % i for i in range(1, 20)] + ['C22', 'C23', 'C24', 'C25', 'C26', 'C27']
    if args and args[0] == '-p':
        props = args[1].split(',')
        args = args[2:]
    if not os.path.isdir(WT):
        sh('git -C /repo worktree add --detach %s HEAD' % WT)
    bad = 0
    for name, steps in R.items():
        if args and name not in args:
            continue
        sh('git checkout -q -f .', cwd=WT)
        for s in steps:
            s()
        env = '. /opt/vp/env.sh 2>/dev/null; '
        t = sh(['bash', '-c', env + 'gofmt -w $(git diff --name-only) && go vet ./... 2>&1 | grep -v "^#" | head -5; go test ./... 2>&1 | grep -v "no test files"'][2], cwd=WT, executable='/bin/bash')
        if 'FAIL' in t.stdout or 'FAIL' in t.stderr or not 'ok' in t.stdout:
            print(name, 'TESTS FAIL', t.stdout[-1500:], t.stderr[-500:])
            bad += 1
            continue
        start = time.time()
        out = []
        b = sh(BUILD, executable='/bin/bash')
        if b.returncode:
            print(name, 'BUILD', b.stdout[-800:], b.stderr[-1500:])
            bad += 1
            continue
        for c in props:
            r = sh('%s/dst%s -prop %s -tier quick -seed 1 -evidence %s/r.json -outdir %s/out -known %s/known-findings.txt' % (TMP, 'r' if c == 'C27' else '', c, TMP, TMP, VROOT))
            if r.returncode:
                out.append('%s exit %d: %s' % (c, r.returncode, '\n    '.join((r.stdout + r.stderr).strip().split('\n')[-6:])))
        print('%s: %s (%.0f s)' % (name, 'quiet' if not out else 'NOISY\n  ' + '\n  '.join(out), time.time() - start), flush=True)
        bad += bool(out)
    sh('git checkout -q -f .', cwd=WT)
    sys.exit(1 if bad else 0)


main()
