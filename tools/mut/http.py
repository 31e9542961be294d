from m import *
I='pkg/apk/index.go'; A='pkg/apk/implementation.go'; T='pkg/apk/transport.go'; C='pkg/apk/cache.go'; R_='pkg/apk/repo.go'; O='pkg/apk/options.go'
# C06
M('key status dropped','C06',[(A,'if resp.StatusCode < 200 || resp.StatusCode > 299 {','if resp.StatusCode > 399 {')])
M('index default only >=400','C06',[(I,'		default:\n			return nil, fmt.Errorf("unexpected status code','		case http.StatusForbidden:\n			return nil, fmt.Errorf("unexpected status code')])
M('range accept','C06',[(T,'} else if resp.StatusCode != http.StatusPartialContent {','} else if resp.StatusCode >= 400 && resp.StatusCode < 500 {')])
M('save any','C06',[(C,'if resp.StatusCode != http.StatusOK {\n		return "", fmt.Errorf("unexpected status code %d", resp.StatusCode)','if resp.StatusCode >= 500 {\n		return "", fmt.Errorf("unexpected status code %d", resp.StatusCode)')])
M('alpine key','C06',[(A,'unable to get alpine key at %s: %v", u, res.Status)\n		}','unable to get alpine key at %s: %v", u, res.Status)\n		}\n'),(A,'		defer res.Body.Close()\n		if res.StatusCode != http.StatusOK {\n			return fmt.Errorf("unable to get alpine key','		defer res.Body.Close()\n		if res.StatusCode == http.StatusNotFound {\n			return fmt.Errorf("unable to get alpine key')])
M('fetch pkg','C06',[(A,'if res.StatusCode != http.StatusOK {\n			res.Body.Close()','if res.StatusCode != http.StatusOK && a.cache == nil {\n			res.Body.Close()')])
M('R status helper','C06',[(A,'		if res.StatusCode != http.StatusOK {\n			res.Body.Close()','		if !isOK(res) {\n			res.Body.Close()'),(A,'func packageAsURI','func isOK(r *http.Response) bool { return r.StatusCode == http.StatusOK }\n\nfunc packageAsURI')],0)
M('R read helper','C06',[(A,'data, err = io.ReadAll(resp.Body)','data, err = readBody(resp)'),(A,'func packageAsURI','func readBody(r *http.Response) ([]byte, error) {\n	return io.ReadAll(r.Body)\n}\n\nfunc packageAsURI')],0)
M('R class','C06',[(A,'if resp.StatusCode < 200 || resp.StatusCode > 299 {','if resp.StatusCode/100 != 2 {')],0)
M('R do helper','C06',[(A,'				resp, err := client.Do(req)\n','				resp, err := doReq(client, req)\n'),(A,'func packageAsURI','''func doReq(c *http.Client, r *http.Request) (*http.Response, error) {
	resp, err := c.Do(r)
	if err != nil {
		return nil, err
	}
	if resp.StatusCode != http.StatusOK {
		resp.Body.Close()
		return nil, fmt.Errorf("bad status %d", resp.StatusCode)
	}
	return resp, nil
}

func packageAsURI''')],0)
M('R switch','C06',[(T,'''	if resp.StatusCode == http.StatusOK {
''','''	ok := resp.StatusCode == http.StatusOK
	if ok {
''')],0)
# C07
M('offline fallthrough','C07',[(C,'''			if t.offline {
				return nil,''','''			if t.offline && os.IsNotExist(err) {
				return nil,''')])
M('offline etag','C07',[(C,'		if len(des) == 0 {\n			return nil, fmt.Errorf("no offline cached entries for %s", cacheDir)','		if len(des) == 0 {\n			return globalEtagCache.get(t, request, cacheFile)')])
M('client bypass in pkg','C07',[(A,'client = a.cache.client(client, false)','if !strings.HasSuffix(u, ".sig") { client = a.cache.client(client, false) }')])
M('offline not copied','C07',[(C,'			offline:      c.offline,\n','')])
M('offline copied wrong','C07',[(C,'			offline:      c.offline,\n','			offline:      c.offline && etagRequired,\n')])
M('repo client','C07',[(R_,'	if a.cache != nil {\n		httpClient = a','	if a.cache != nil && !ignoreSignatures {\n		httpClient = a')])
M('index default client','C07',[(I,'newRangeRetryTransport(ctx, client)','newRangeRetryTransport(ctx, http.DefaultClient)')])
M('R getClient','C07',[(A,'''		client := a.client
		if a.cache != nil {
			client = a.cache.client(client, false)
		}
''','''		client := a.clientFor(false)
'''),(A,'func packageAsURI','''func (a *APK) clientFor(etag bool) *http.Client {
	if a.cache == nil {
		return a.client
	}
	return a.cache.client(a.client, etag)
}

func packageAsURI''')],0)
M('R offline early','C07',[(C,'''	if t.offline {
		cacheDir := cacheDirFromFile(cacheFile)''','''	if !t.offline {
		return globalEtagCache.get(t, request, cacheFile)
	}
	{
		cacheDir := cacheDirFromFile(cacheFile)'''),(C,'''			ContentLength: newest.Size(),
		}, nil
	}

	return globalEtagCache.get(t, request, cacheFile)
''','''			ContentLength: newest.Size(),
		}, nil
	}
''')],0)
# C10
M('host suffix','C10',[(A,'if a, ok := a.auth[asURL.Host]; ok && a.user != "" && a.pass != "" {\n			req','if a, ok := a.auth[asURL.Hostname()]; ok && a.user != "" && a.pass != "" {\n			req')])
M('single auth','C10',[(I,'''		} else if a, ok := opts.auth[asURL.Host]; ok && a.user != "" || a.pass != "" {
			req.SetBasicAuth(a.user, a.pass)
''','''		} else {
			for h, a := range opts.auth {
				if strings.HasSuffix(asURL.Host, h) {
					req.SetBasicAuth(a.user, a.pass)
				}
			}
''')])
M('auth key lower','C10',[(O,'o.auth[domain] = auth{user, pass}','o.auth[strings.TrimPrefix(domain, "www.")] = auth{user, pass}'),(O,'import (','import (\n	"strings"')])
M('cross fallback','C10',[(A,'} else if a, ok := a.auth[asURL.Host]; ok && a.user != "" && a.pass != "" {','} else if a, ok := a.auth[""]; ok && a.user != "" && a.pass != "" {')])
M('R auth range','C10',[(I,'''		} else if a, ok := opts.auth[asURL.Host]; ok && a.user != "" || a.pass != "" {
			req.SetBasicAuth(a.user, a.pass)
''','''		} else {
			for h, a := range opts.auth {
				if h == asURL.Host {
					req.SetBasicAuth(a.user, a.pass)
				}
			}
''')],0)
M('R auth helper','C10',[(A,'''		if a, ok := a.auth[asURL.Host]; ok && a.user != "" && a.pass != "" {
			req.SetBasicAuth(a.user, a.pass)
		}
''','''		a.addAuth(req, asURL)
'''),(A,'func packageAsURI','''func (a *APK) addAuth(req *http.Request, u *url.URL) {
	cred, ok := a.auth[u.Host]
	if !ok || cred.user == "" || cred.pass == "" {
		return
	}
	req.SetBasicAuth(cred.user, cred.pass)
}

func packageAsURI''')],0)
M('R own host','C10',[(A,'''a.auth[asURL.Host]; ok && a.user != "" && a.pass != "" {
			req.Set''','''a.auth[req.URL.Host]; ok && a.user != "" && a.pass != "" {
			req.Set''')],0)
# C29
M('bg ctx','C29',[(T,'r.req.WithContext(r.ctx)','r.req')])
M('bg ctx2','C29',[(A,'newRangeRetryTransport(ctx, client)','newRangeRetryTransport(context.WithoutCancel(ctx), client)')])
M('etag clone','C29',[(C,'request.Clone(request.Context())','request.Clone(context.Background())'),(C,'import (','import (\n	"context"')])
M('R ctx','C29',[(A,'newRangeRetryTransport(ctx, client)','newRangeRetryTransport(req.Context(), client)')],0)
M('R timeout','C29',[(A,'		rrt := newRangeRetryTransport(ctx, client)','		ctx, cancel := context.WithTimeout(ctx, time.Hour)\n		_ = cancel\n		rrt := newRangeRetryTransport(ctx, client)')],0)
