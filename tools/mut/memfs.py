import sys; sys.path.insert(0,'/tmp/mut')
from m import M
F='pkg/fs/memfs.go'
M('unlocked readdir','C23',[(F,'''	anode.mu.Lock()
	var de = make([]fs.DirEntry, 0, len(anode.children))
''','''	anode.mu.Lock()
	var de = make([]fs.DirEntry, 0, len(anode.children))
	anode.mu.Unlock()
'''),(F,'''node.fileInfo(name)))
	}
	anode.mu.Unlock()
''','''node.fileInfo(name)))
	}
''')])
M('missing unlock','C23',[(F,'''	if anode != nil && anode.dir {
		parentAnode.mu.Unlock()
''','''	if anode != nil && anode.dir {
''')])
M('early unlock','C23',[(F,'''	anode.mu.Lock()
	defer anode.mu.Unlock()
	if _, ok := anode.children[filepath.Base(path)]; ok {
		return os.ErrExist
	}
	// now''','''	anode.mu.Lock()
	_, ok := anode.children[filepath.Base(path)]
	anode.mu.Unlock()
	if ok {
		return os.ErrExist
	}
	anode.mu.Lock()
	defer anode.mu.Unlock()
	// now''')])
M('xattr nolock','C23',[(F,'''	node.mu.Lock()
	defer node.mu.Unlock()
	data, ok''','''	data, ok''')])
M('nested','C23',[(F,'''	node.mu.Lock()
	defer node.mu.Unlock()
	data, ok''','''	node.mu.Lock()
	defer node.mu.Unlock()
	if _, err := m.getNode(path); err != nil {
		return nil, err
	}
	data, ok''')])
M('R helper','C23',[(F,'''		node.mu.Lock()
		childNode, ok := node.children[part]
''','''		childNode, ok := node.child(part)
'''),(F,'''		node.mu.Unlock()
		if !ok {''','''		if !ok {'''),(F,'''func (m *memFS) Mkdir(''','''func (n *node) child(s string) (*node, bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	c, ok := n.children[s]
	return c, ok
}

func (m *memFS) Mkdir(''')],0)
M('R lock helper','C23',[(F,'''	anode.mu.Lock()
	defer anode.mu.Unlock()
	if _, ok := anode.children[base]; !ok {''','''	defer anode.lock()()
	if _, ok := anode.children[base]; !ok {'''),(F,'''func (m *memFS) Mkdir(''','''func (n *node) lock() func() {
	n.mu.Lock()
	return n.mu.Unlock
}

func (m *memFS) Mkdir(''')],0)
M('R explicit','C23',[(F,'''	node.mu.Lock()
	defer node.mu.Unlock()
	data, ok := node.xattrs[attr]
''','''	node.mu.Lock()
	data, ok := node.xattrs[attr]
	node.mu.Unlock()
''')],0)
M('R closure','C23',[(F,'''	node.mu.Lock()
	defer node.mu.Unlock()
	node.xattrs[attr] = data
	return nil
''','''	node.locked(func() { node.xattrs[attr] = data })
	return nil
'''),(F,'''func (m *memFS) Mkdir(''','''func (n *node) locked(f func()) {
	n.mu.Lock()
	defer n.mu.Unlock()
	f()
}

func (m *memFS) Mkdir(''')],0)
M('R rw','C23',[(F,'sync.Mutex','sync.RWMutex'),(F,'''	node.mu.Lock()
	defer node.mu.Unlock()
	data, ok := node.xattrs[attr]
''','''	node.mu.RLock()
	defer node.mu.RUnlock()
	data, ok := node.xattrs[attr]
''')],0)
