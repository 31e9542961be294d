import sys; sys.path.insert(0,'/tmp/mut')
from m import M
T='pkg/apk/transport.go'
M('off by one','C26',[(T,'"bytes=%d-", r.progress)','"bytes=%d-", r.progress+1)')])
M('bounded','C26',[(T,'fmt.Sprintf("bytes=%d-", r.progress)','fmt.Sprintf("bytes=%d-%d", r.progress, r.total)')])
M('no discard','C26',[(T,'''			if _, err := io.CopyN(io.Discard, resp.Body, r.progress); err != nil {
				return resp, err
			}
''','''			_ = io.Discard
''')])
M('discard ignored','C26',[(T,'''			if _, err := io.CopyN(io.Discard, resp.Body, r.progress); err != nil {
				return resp, err
			}
''','''			_, _ = io.CopyN(io.Discard, resp.Body, r.progress)
''')])
M('discard eof ok','C26',[(T,'io.CopyN(io.Discard, resp.Body, r.progress); err != nil {','io.CopyN(io.Discard, resp.Body, r.progress); err != nil && err != io.EOF {')])
M('2xx','C26',[(T,'} else if resp.StatusCode != http.StatusPartialContent {','} else if resp.StatusCode/100 != 2 {')])
M('416','C26',[(T,'} else if resp.StatusCode != http.StatusPartialContent {','} else if resp.StatusCode != http.StatusPartialContent && resp.StatusCode != http.StatusRequestedRangeNotSatisfiable {')])
M('progress=','C26',[(T,'r.progress += int64(n)','r.progress = int64(n)')])
M('progress only ok','C26',[(T,'''		r.progress += int64(n)''','''		if err == nil {
			r.progress += int64(n)
		}''')])
M('progress in loop','C26',[(T,'''		n, err = r.body.Read(p)
''','''		n, err = r.body.Read(p)
		r.progress += int64(n)
'''),(T,'''	defer func() {
		r.progress += int64(n)
	}()

''','')])
M('range only if total','C26',[(T,'if r.progress != 0 {\n		req','if r.progress != 0 && r.total > 0 {\n		req')])
M('status200 w/ range','C26',[(T,'if resp.StatusCode == http.StatusOK {','if resp.StatusCode == http.StatusOK || resp.StatusCode == http.StatusPartialContent {')],1)
M('R nodefer','C26',[(T,'''	defer func() {
		r.progress += int64(n)
	}()

''',''),(T,'''	return n, err
}

func (r *rangeRetryReader) Close''','''	r.progress += int64(n)
	return n, err
}

func (r *rangeRetryReader) Close'''),(T,'			return n, errors.Join(rerr, err)','			r.progress += int64(n)\n			return n, errors.Join(rerr, err)')],0)
M('R for i','C26',[(T,'for _, retry := range []bool{true, true, false} {','for i := 0; i < 3; i++ {\n		retry := i < 2')],0)
M('R switch helper','C26',[(T,'''	if resp.StatusCode == http.StatusOK {
		// If the upstream doesn't support Range requests for some reason and only returns 200,
		// we need to discard anything we've already Read().
		if r.progress != 0 {
			if _, err := io.CopyN(io.Discard, resp.Body, r.progress); err != nil {
				return resp, err
			}
		}
	} else if resp.StatusCode != http.StatusPartialContent {
''','''	switch resp.StatusCode {
	case http.StatusOK:
		if err := r.skip(resp.Body); err != nil {
			return resp, err
		}
	case http.StatusPartialContent:
	default:
'''),(T,'func (r *rangeRetryReader) Read','''func (r *rangeRetryReader) skip(b io.Reader) error {
	if r.progress == 0 {
		return nil
	}
	_, err := io.CopyN(io.Discard, b, r.progress)
	return err
}

func (r *rangeRetryReader) Read''')],0)
M('R always copyn','C26',[(T,'''		if r.progress != 0 {
			if _, err := io.CopyN(io.Discard, resp.Body, r.progress); err != nil {
				return resp, err
			}
		}
''','''		if _, err := io.CopyN(io.Discard, resp.Body, r.progress); err != nil {
			return resp, err
		}
''')],0)
