from m import M
C='pkg/apk/cache.go'; I='pkg/apk/implementation.go'; X='pkg/apk/index.go'; T='pkg/apk/transport.go'; R='pkg/apk/repo.go'; L='pkg/apk/releases.go'; RP='pkg/apk/repository.go'
def m(n,*e,**k): M(n,'C11',list(e),**k)
m('raw parse error',(I,'''		return nil, errInvalidURL
	}
	return u, nil''','''		return nil, err
	}
	return u, nil'''))
m('wrapped parse error',(I,'''		return nil, errInvalidURL
	}
	return u, nil''','''		return nil, fmt.Errorf("invalid URL: %w", err)
	}
	return u, nil'''))
m('request error',(I,'''		return nil, errInvalidURL
	}
	return req, nil''','''		return nil, err
	}
	return req, nil'''))
m('uri error',(I,'			return "", errInvalidURL','			return "", err'))
m('line quoted',(X,'"invalid repository line %d: a pin needs a name and a URL", i+1','"invalid repository line %d: %q", i+1, repo'))
m('line part quoted',(X,'"invalid repository line %d: a pin needs a name and a URL", i+1','"invalid repository line %d: %q", i+1, parts[0]'))
m('alpine key raw',(I,'"failed to fetch alpine key %s: %w", redacted','"failed to fetch alpine key %s: %w", u'))
m('alpine key raw2',(I,'"unable to get alpine key at %s: %v", redacted','"unable to get alpine key at %s: %v", u'))
m('alpine base raw',(I,'filepath.Base(redacted)','filepath.Base(u)'))
m('key name raw',(I,'				name = filepath.Base(asURL.Redacted())\n',''))
m('index url %s',(X,'"unable to get repository index at %s: %w", asURL.Redacted()','"unable to get repository index at %s: %w", asURL'))
m('index u',(X,'"unable to get repository index at %s: %w", asURL.Redacted()','"unable to get repository index at %s: %w", u'))
m('index string',(X,'"unable to read repository index at %s: %w", asURL.Redacted()','"unable to read repository index at %s: %w", asURL.String()'))
m('index 404 u',(X,'"repository index not found for architecture %s at %s", arch, asURL.Redacted()','"repository index not found for architecture %s at %s", arch, u'))
m('convert err u',(X,'"unable to read convert repository index bytes to index struct at %s: %w", asURL.Redacted()','"unable to read convert repository index bytes to index struct at %s: %w", asURL.String()'))
m('reading u',(X,'"reading index %s: %w", asURL.Redacted()','"reading index %s: %w", u'),(X,'			asURL, _ := url.Parse(u)\n			return','			return'))
m('reading repo',(X,'"reading index %s: %w", asURL.Redacted()','"reading index of %s for %s: %w", repo, arch'),(X,'			asURL, _ := url.Parse(u)\n			return','			return'))
m('reading repoURL',(X,'"reading index %s: %w", asURL.Redacted()','"reading index %s: %w", repoURL'),(X,'			asURL, _ := url.Parse(u)\n			return','			return'))
m('reading repoBase',(X,'"reading index %s: %w", asURL.Redacted()','"reading index %s: %w", repoBase'),(X,'			asURL, _ := url.Parse(u)\n			return','			return'))
m('panic u',(X,'"did not see index %q after writing it", asURL.Redacted()','"did not see index %q after writing it", u'),(X,'		asURL, _ := url.Parse(u)\n		panic','		panic'))
m('panic key',(X,'"did not see index %q after writing it", asURL.Redacted()','"did not see index %q after writing it", key'),(X,'		asURL, _ := url.Parse(u)\n		panic','		panic'))
m('transport url',(T,'''		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.Redacted()''','''		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL'''),tests=False)
m('transport retry url',(T,'oerr, req.Method, req.URL.Redacted(), rangeHeader','oerr, req.Method, req.URL.String(), rangeHeader'))
m('transport req',(T,'req.URL.Redacted(), rangeHeader, resp.StatusCode)\n	}\n','req, rangeHeader, resp.StatusCode)\n	}\n'))
m('package at u',(I,'"unable to get package apk at %s: %w", asURL.Redacted()','"unable to get package apk at %s: %w", u'))
m('package status u',(I,'"unable to get package apk at %s: %v", asURL.Redacted()','"unable to get package apk at %s: %v", pkg.URL()'))
m('fetching pkg url',(I,'"fetching package %q: %w", pkg.PackageName()','"fetching package %q: %w", pkg.URL()'))
m('expanding url',(I,'"expanding %s: %w", pkg.PackageName()','"expanding %s: %w", pkg.URL()'))
m('did not see u',(I,'"did not see apk of %q after writing it", pkg.PackageName()','"did not see apk of %q after writing it", u'))
m('cache path user',(C,'	u2.User = nil\n',''))
m('cache path user restored',(C,'	u2.User = nil\n','	u2.User = nil\n	if u.User != nil {\n		u2 = u\n	}\n'))
m('cache offline url',(C,'"no offline cached entries for %s", cacheDir','"no offline cached entries for %s", request.URL'))
m('cache status',(C,'fmt.Errorf("unexpected status code %d", resp.StatusCode)','fmt.Errorf("unexpected status code %d for %s", resp.StatusCode, request.URL)'))
m('cache status req',(C,'fmt.Errorf("unexpected status code %d", resp.StatusCode)','fmt.Errorf("unexpected status code %d for %v", resp.StatusCode, request)'))
m('cache resp',(C,'fmt.Errorf("unexpected status code %d", resp.StatusCode)','fmt.Errorf("unexpected response %v", resp)'))
m('keyring element',(I,'"failed to fetch apk key: %w", err','"failed to fetch apk key %s: %w", element, err'))
m('keyring code',(I,'"failed to fetch apk key: http response indicated error code: %d", resp.StatusCode','"failed to fetch apk key %s: http response indicated error code: %d", asURL.String(), resp.StatusCode'))
m('keyring user',(I,'"failed to fetch apk key: http response indicated error code: %d", resp.StatusCode','"failed to fetch apk key as %v: http response indicated error code: %d", asURL.User, resp.StatusCode'))
m('keyring pass',(I,'"failed to read apk key response: %w", err','"failed to read apk key response for %s: %w", asURL.User.String(), err'))
m('scheme default',(I,'"scheme %s not supported", asURL.Scheme','"scheme of %s not supported", element'))
m('scheme default repo',(X,'fmt.Errorf("repository scheme %s not supported", asURL.Scheme)','fmt.Errorf("repository scheme of %s not supported", u)'))
m('error type',(X,'''			return nil, fmt.Errorf("reading index %s: %w", asURL.Redacted(), err)''','''			_ = asURL
			return nil, &indexReadError{u, err}'''),(X,'func shouldCheck','''type indexReadError struct {
	u   string
	err error
}

func (e *indexReadError) Error() string { return "reading " + e.u + ": " + e.err.Error() }
func (e *indexReadError) Unwrap() error { return e.err }

func shouldCheck'''))
m('error of names',(R,'"failed to write apk repositories list: %w", err','"failed to write apk repositories list %v: %w", repos, err'))
m('concat',(X,'fmt.Errorf("reading index %s: %w", asURL.Redacted(), err)','fmt.Errorf("reading index "+u+": %w", err)'),(X,'			asURL, _ := url.Parse(u)\n			return','			return'))
m('new error',(X,'fmt.Errorf("repository index not found for architecture %s at %s", arch, asURL.Redacted())','errors.New("no index at " + asURL.String())'))
m('join',(X,'fmt.Errorf("repository index not found for architecture %s at %s", arch, asURL.Redacted())','errors.New(strings.Join([]string{"no index at", u}, " "))'))
m('repository struct',(X,'fmt.Errorf("reading index %s: %w", asURL.Redacted(), err)','fmt.Errorf("reading index of %v: %w", Repository{URI: repoBase}, err)'),(X,'			asURL, _ := url.Parse(u)\n			return','			return'))
m('pkg verb',(I,'"unable to install files for pkg %s: %w", pkg.Name','"unable to install files for pkg %s: %w", pkg'),expect=0)
m('repo pkg no stringer',(RP,'func (rp *RepositoryPackage) URL() string {','func (rp *RepositoryPackage) String() string { return rp.Name + " from " + rp.repository.URI }\n\nfunc (rp *RepositoryPackage) URL() string {'))
m('deferred decorate',(X,'''func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, arch string, opts *indexOpts) (*APKIndex, error) { //nolint:gocyclo
''','''func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, arch string, opts *indexOpts) (_ *APKIndex, rerr error) { //nolint:gocyclo
	defer func() {
		if rerr != nil {
			rerr = fmt.Errorf("index %s: %w", u, rerr)
		}
	}()
'''))
m('errgroup decorate',(I,'			return nil\n		})\n	}\n\n	return eg.Wait()','			return errors.New("x" + element)\n		})\n	}\n\n	return eg.Wait()'))
m('strconv',(X,'fmt.Errorf("reading index %s: %w", asURL.Redacted(), err)','fmt.Errorf("reading index %s: %w", strings.TrimPrefix(u, "https://"), err)'),(X,'			asURL, _ := url.Parse(u)\n			return','			return'))
m('trimmed key',(I,'"failed to fetch apk key: %w", err)','"failed to fetch apk key from %s: %w", strings.SplitN(element, "?", 2)[0], err)'))
m('username only',(I,'"failed to fetch apk key: %w", err)','"failed to fetch apk key as %s: %w", asURL.User.Username(), err)'),expect=0)
m('host ok',(X,'"unable to get repository index at %s: %w", asURL.Redacted()','"unable to get repository index at %s: %w", asURL.Host'),expect=0)
m('host path ok',(X,'"unable to get repository index at %s: %w", asURL.Redacted()','"unable to get repository index at %s: %w", asURL.Host+asURL.Path'),expect=0)
# behaviour-preserving
m('R inline parse',(X,'		asURL, err = parseURL(u)\n','		asURL, err = url.Parse(u)\n'),(X,'''		return nil, fmt.Errorf("failed to parse repo as URI: %w", err)''','''		return nil, fmt.Errorf("failed to parse repo as URI")'''),expect=0)
m('R helper raw',(I,'''	u, err := url.Parse(raw)
	if err != nil {
		return nil, errInvalidURL''','''	u, err := rawParse(raw)
	if err != nil {
		return nil, errInvalidURL'''),(I,'// newGetRequest returns','func rawParse(raw string) (*url.URL, error) { return url.Parse(raw) }\n\n// newGetRequest returns'),expect=0)
m('R redact helper',(X,'"unable to get repository index at %s: %w", asURL.Redacted()','"unable to get repository index at %s: %w", redactedURL(asURL)'),(X,'func shouldCheck','func redactedURL(u *url.URL) string {\n	c := *u\n	c.User = nil\n	return c.String()\n}\n\nfunc shouldCheck'),expect=0)
m('R redact helper string',(X,'			asURL, _ := url.Parse(u)\n			return nil, fmt.Errorf("reading index %s: %w", asURL.Redacted(), err)','			return nil, fmt.Errorf("reading index %s: %w", redactString(u), err)'),(X,'func shouldCheck','func redactString(u string) string {\n	p, err := url.Parse(u)\n	if err != nil {\n		return "invalid URL"\n	}\n	return p.Redacted()\n}\n\nfunc shouldCheck'),expect=0)
m('R where var',(X,'	switch asURL.Scheme {\n	case "file":\n		b, err','	where := asURL.Redacted()\n	switch asURL.Scheme {\n	case "file":\n		b, err'),(X,'"unable to get repository index at %s: %w", asURL.Redacted()','"unable to get repository index at %s: %w", where'),expect=0)
m('R isRemote',(I,'if strings.HasPrefix(element, "https://") || strings.HasPrefix(element, "http://") {','if isRemote(element) {'),(I,'// newGetRequest returns','func isRemote(u string) bool { return strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") }\n\n// newGetRequest returns'),(X,'	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {\n		// We','	if isRemote(u) {\n		// We'),expect=0)
m('R remote var',(X,'	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {\n		// We','	remote := strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://")\n	if remote {\n		// We'),expect=0)
m('R negated',(X,'''	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
		asURL, err = parseURL(u)
	} else {
		// Attempt to parse non-https elements into URI's so they are translated into
		// file:// URLs allowing them to parse into a url.URL{}
		asURL, err = parseURL(string(uri.New(u)))
	}''','''	if !strings.HasPrefix(u, "https://") && !strings.HasPrefix(u, "http://") {
		asURL, err = parseURL(string(uri.New(u)))
	} else {
		asURL, err = parseURL(u)
	}'''),expect=0)
m('R local index func',(X,'''		stat, err := os.Stat(u)
		if errors.Is(err, fs.ErrNotExist) {
			return nil, nil
		}
		if err != nil {
			return nil, fmt.Errorf("failed to stat repository index %s: %w", u, err)
		}
''','''		stat, err := statLocal(u)
		if errors.Is(err, fs.ErrNotExist) {
			return nil, nil
		}
		if err != nil {
			return nil, err
		}
'''),(X,'func shouldCheck','''func statLocal(p string) (fs.FileInfo, error) {
	fi, err := os.Stat(p)
	if err != nil {
		return nil, fmt.Errorf("failed to stat repository index %s: %w", p, err)
	}
	return fi, nil
}

func shouldCheck'''),expect=0)
m('R read local func',(X,'''		b, err = os.ReadFile(u)
		if err != nil {
			if !errors.Is(err, fs.ErrNotExist) {
				return nil, fmt.Errorf("failed to read repository %s: %w", asURL.Redacted(), err)
			}
			return nil, nil
		}''','''		b, err = readLocal(u)
		if err != nil || b == nil {
			return nil, err
		}'''),(X,'func shouldCheck','''func readLocal(p string) ([]byte, error) {
	b, err := os.ReadFile(p)
	if errors.Is(err, fs.ErrNotExist) {
		return nil, nil
	}
	if err != nil {
		return nil, fmt.Errorf("failed to read repository %s: %w", p, err)
	}
	return b, nil
}

func shouldCheck'''),expect=0)
m('R fetch helper',(X,'''		req, err := newGetRequest(ctx, asURL.String())
		if err != nil {
			return nil, err
		}
''','''		req, err := indexRequest(ctx, asURL)
		if err != nil {
			return nil, err
		}
'''),(X,'func shouldCheck','''func indexRequest(ctx context.Context, u *url.URL) (*http.Request, error) {
	req, err := http.NewRequestWithContext(ctx, http.MethodGet, u.String(), nil)
	if err != nil {
		return nil, errors.New("making index request for " + u.Redacted())
	}
	return req, nil
}

func shouldCheck'''),expect=0)
m('R status helper',(X,'''			return nil, fmt.Errorf("repository index not found for architecture %s at %s", arch, asURL.Redacted())
		default:
			return nil, fmt.Errorf("unexpected status code %d when getting repository index for architecture %s at %s", res.StatusCode, arch, asURL.Redacted())''','''			fallthrough
		default:
			return nil, statusError(res, arch, asURL)'''),(X,'func shouldCheck','''func statusError(res *http.Response, arch string, u *url.URL) error {
	if res.StatusCode == http.StatusNotFound {
		return fmt.Errorf("repository index not found for architecture %s at %s", arch, u.Redacted())
	}
	return fmt.Errorf("unexpected status code %d when getting repository index for architecture %s at %s", res.StatusCode, arch, u.Redacted())
}

func shouldCheck'''),expect=0)
m('R error type redacted',(X,'''			return nil, fmt.Errorf("reading index %s: %w", asURL.Redacted(), err)''','''			return nil, &indexReadError{asURL.Redacted(), err}'''),(X,'func shouldCheck','''type indexReadError struct {
	u   string
	err error
}

func (e *indexReadError) Error() string { return "reading " + e.u + ": " + e.err.Error() }
func (e *indexReadError) Unwrap() error { return e.err }

func shouldCheck'''),expect=0)
m('R log raw',(X,'		u := IndexURL(repoURL, arch)\n','		u := IndexURL(repoURL, arch)\n		clog.FromContext(ctx).Debugf("reading %s", u)\n'),(X,'import (','import (\n	"github.com/chainguard-dev/clog"'),expect=0)
m('R sprintf key',(I,'	u := pkg.URL()\n	// Do all','	u := fmt.Sprintf("%v", pkg.URL())\n	// Do all'),expect=0)
m('R redirect user',(C,'	u2.User = nil\n','	u2.User = (*url.Userinfo)(nil)\n'),expect=0)
m('R fresh url',(C,'	repoDir = url.QueryEscape(u2.String())','	u3 := url.URL{Scheme: u2.Scheme, Host: u2.Host, Path: u2.Path}\n	repoDir = url.QueryEscape(u3.String())'),expect=0)
m('R ptr copy',(C,'	u2 := u\n','	cp := u\n	u2 := &cp\n'),expect=0)
m('R pinned message',(X,'"invalid repository line %d: a pin needs a name and a URL", i+1','"invalid repository line %d of %d", i+1, len(repos)'),expect=0)
