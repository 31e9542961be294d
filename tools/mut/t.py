from m import *
I='pkg/apk/index.go'
M('R ContainsFunc','C01',[(I,'''	for _, ignoredIndex := range opts.noSignatureIndexes {
		if IndexURL(ignoredIndex, arch) == index {
			return false
		}
	}
	return true''','''	return !slices.ContainsFunc(opts.noSignatureIndexes, func(ig string) bool {
		return index == IndexURL(ig, arch)
	})'''),(I,'"regexp"','"regexp"\n	"slices"')],0)
