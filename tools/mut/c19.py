from m import *
V='pkg/apk/version.go'
p='C19'
def S(a,b): return (V,a,b)
M('letters skipped',p,[S('if actual.letter < required.letter {\n\t\treturn less\n\t}','')])
M('letter less flipped',p,[S('if actual.letter < required.letter {\n\t\treturn less','if actual.letter < required.letter {\n\t\treturn greater')])
M('no len less',p,[S('	if len(actual.numbers) < len(required.numbers) {\n\t\treturn less\n\t}','')])
M('len before elements',p,[S('	for i := 0; i < len(actual.numbers) && i < len(required.numbers); i++ {','	if len(actual.numbers) != len(required.numbers) && len(actual.numbers) > 3 {\n\t\treturn greater\n\t}\n\tfor i := 0; i < len(actual.numbers) && i < len(required.numbers); i++ {')])
M('first two only',p,[S('i < len(actual.numbers) && i < len(required.numbers); i++','i < len(actual.numbers) && i < len(required.numbers) && i < 9; i++')])
M('start at 1',p,[S('for i := 0; i < len(actual.numbers) && ','for i := 1; i < len(actual.numbers) && ')])
M('step 2',p,[S('i < len(required.numbers); i++ {\n\t\tif actual.numbers[i] > ','i < len(required.numbers); i += 2 {\n\t\tif actual.numbers[i] > ')])
M('post none max',p,[S('	if actual.postSuffix > required.postSuffix {','	if actual.postSuffix == packageVersionPostModifierNone && required.postSuffix == packageVersionPostModifierSVN {\n\t\treturn greater\n\t}\n	if actual.postSuffix > required.postSuffix {')])
M('pre max one side',p,[S('''	if requiredPreSuffix == packageVersionPreModifierNone {
		requiredPreSuffix = packageVersionPreModifierMax
	}
''','')])
M('pre max small',p,[S('packageVersionPreModifierMax   packageVersionPreModifier = 1000','packageVersionPreModifierMax   packageVersionPreModifier = 4')])
M('rank clash',p,[S('packageVersionPostModifierHG   packageVersionPostModifier = 4','packageVersionPostModifierHG   packageVersionPostModifier = 3')])
M('rank swap',p,[S('packageVersionPreModifierBeta  packageVersionPreModifier = 2','packageVersionPreModifierBeta  packageVersionPreModifier = 3'),S('packageVersionPreModifierPre   packageVersionPreModifier = 3','packageVersionPreModifierPre   packageVersionPreModifier = 2')])
M('hg as git',p,[S('		postSuffix = packageVersionPostModifierHG','		postSuffix = packageVersionPostModifierGit')])
M('pre number last',p,[S('''	if actual.preSuffixNumber > required.preSuffixNumber {
		return greater
	}
	if actual.preSuffixNumber < required.preSuffixNumber {
		return less
	}
''',''),S('	// same post-suffix numbers\n','''	if actual.preSuffixNumber > required.preSuffixNumber {
		return greater
	}
	if actual.preSuffixNumber < required.preSuffixNumber {
		return less
	}
''')])
M('pre number only when pre',p,[S('if actual.preSuffixNumber < required.preSuffixNumber {','if actual.preSuffixNumber < required.preSuffixNumber && actual.revision != 0 {')])
M('revision diff',p,[S('''	if actual.revision > required.revision {
		return greater
	}
	if actual.revision < required.revision {
		return less
	}
	return equal''','''	return actual.revision - required.revision''')])
M('revision zero skipped',p,[S('	if actual.revision < required.revision {','	if actual.revision != 0 && actual.revision < required.revision {')])
M('post number wrong group',p,[S('strconv.Atoi(actuals[10])','strconv.Atoi(actuals[7])')])
M('revision wrong field',p,[S('revision:         revision,','revision:         revision * 0,')])
M('components reversed',p,[S('			numbers = append(numbers, num)\n','			numbers = append([]int{num}, numbers...)\n')])
M('components prepend first',p,[S('	numbers = append(numbers, num)\n\n	// get','	defer func() {}()\n	numbers = append(numbers, num)\n\n	// get')],expect=0)
M('ge is g',p,[S('return c == greater || c == equal','return c == greater')])
M('le is ne g',p,[S('return c == less || c == equal','return c != less')])
M('=> is greater',p,[S('case ">":\n','case ">", "=>":\n'),S('case ">=", "=>":','case ">=":')])
M('=< any',p,[S('case "<=", "=<":','case "<=":')])
M('~= equal',p,[S('case "=":\n','case "=", "~=":\n'),S('case "~", "~=", "=~":','case "~", "=~":')])
M('swapped args',p,[S('c := CompareVersions(actualVersion, requiredVersion)','c := CompareVersions(requiredVersion, actualVersion)')])
M('grammar pre drop',p,[S('(_alpha|_beta|_pre|_rc)','(_alpha|_beta|_rc)')])
M('grammar new suffix',p,[S('(_cvs|_svn|_git|_hg|_p)','(_cvs|_svn|_git|_hg|_p|_bzr)')])
M('svn missing case',p,[S('''	case "_svn":
		postSuffix = packageVersionPostModifierSVN
''','')])
M('number overflow saturated cmp',p,[S('if actual.numbers[i] > required.numbers[i] {','if i > 0 && actual.numbers[i] > required.numbers[i] {')])
M('zero equal trailing',p,[S('	if len(actual.numbers) > len(required.numbers) {\n\t\treturn greater\n\t}\n','	if len(actual.numbers) > len(required.numbers) && actual.numbers[len(required.numbers)] != 0 {\n\t\treturn greater\n\t}\n')])
# refactors
M('R cmp.Compare',p,[S('''	if actual.letter > required.letter {
		return greater
	}
	if actual.letter < required.letter {
		return less
	}
''','''	if c := cmp.Compare(actual.letter, required.letter); c != 0 {
		return c
	}
'''),S('import (','import (\n\t"cmp"')],expect=0)
M('R helper',p,[S('''	if actual.revision > required.revision {
		return greater
	}
	if actual.revision < required.revision {
		return less
	}
	return equal
}''','''	return compareInts(actual.revision, required.revision)
}

func compareInts(a, b int) int {
	switch {
	case a == b:
		return equal
	case a < b:
		return less
	default:
		return greater
	}
}'''),S('''	if actual.preSuffixNumber > required.preSuffixNumber {
		return greater
	}
	if actual.preSuffixNumber < required.preSuffixNumber {
		return less
	}
''','''	if c := compareInts(actual.preSuffixNumber, required.preSuffixNumber); c != equal {
		return c
	}
''')],expect=0)
M('R table',p,[S('''	if actual.postSuffixNumber > required.postSuffixNumber {
		return greater
	}
	if actual.postSuffixNumber < required.postSuffixNumber {
		return less
	}
	// same post-suffix numbers
	// compare revisions
	if actual.revision > required.revision {
		return greater
	}
	if actual.revision < required.revision {
		return less
	}
	return equal''','''	for _, pair := range [][2]int{
		{actual.postSuffixNumber, required.postSuffixNumber},
		{actual.revision, required.revision},
	} {
		if pair[0] > pair[1] {
			return greater
		}
		if pair[0] < pair[1] {
			return less
		}
	}
	return equal''')],expect=0)
M('R range loop',p,[S('''	for i := 0; i < len(actual.numbers) && i < len(required.numbers); i++ {
		if actual.numbers[i] > required.numbers[i] {
			return greater
		}
		if actual.numbers[i] < required.numbers[i] {
			return less
		}
	}
''','''	for i, n := range actual.numbers {
		if i >= len(required.numbers) {
			return greater
		}
		if m := required.numbers[i]; n != m {
			if n < m {
				return less
			}
			return greater
		}
	}
''')],expect=0)
M('R min loop',p,[S('for i := 0; i < len(actual.numbers) && i < len(required.numbers); i++ {','n := min(len(actual.numbers), len(required.numbers))\n\tfor i := 0; i < n; i++ {')],expect=0)
M('R slices.Compare',p,[S('''	for i := 0; i < len(actual.numbers) && i < len(required.numbers); i++ {
		if actual.numbers[i] > required.numbers[i] {
			return greater
		}
		if actual.numbers[i] < required.numbers[i] {
			return less
		}
	}
	// if we made it here, the parts that were the same size are equal
	if len(actual.numbers) > len(required.numbers) {
		return greater
	}
	if len(actual.numbers) < len(required.numbers) {
		return less
	}
''','''	if c := slices.Compare(actual.numbers, required.numbers); c != 0 {
		return c
	}
'''),S('import (','import (\n\t"slices"')],expect=0)
M('R ranks map',p,[S('''	var postSuffix packageVersionPostModifier
	switch actuals[9] {
	case "_cvs":
		postSuffix = packageVersionPostModifierCVS
	case "_svn":
		postSuffix = packageVersionPostModifierSVN
	case "_git":
		postSuffix = packageVersionPostModifierGit
	case "_hg":
		postSuffix = packageVersionPostModifierHG
	case "_p":
		postSuffix = packageVersionPostModifierP
	case "":
		postSuffix = packageVersionPostModifierNone
	default:
''','''	postSuffix, ok := postModifiers[actuals[9]]
	if !ok {
'''),S('type Version struct {','''var postModifiers = map[string]packageVersionPostModifier{
	"":     packageVersionPostModifierNone,
	"_cvs": packageVersionPostModifierCVS,
	"_svn": packageVersionPostModifierSVN,
	"_git": packageVersionPostModifierGit,
	"_hg":  packageVersionPostModifierHG,
	"_p":   packageVersionPostModifierP,
}

type Version struct {''')],expect=0)
M('R rank method',p,[S('''	actualPreSuffix, requiredPreSuffix := actual.preSuffix, required.preSuffix
	if actualPreSuffix == packageVersionPreModifierNone {
		actualPreSuffix = packageVersionPreModifierMax
	}
	if requiredPreSuffix == packageVersionPreModifierNone {
		requiredPreSuffix = packageVersionPreModifierMax
	}
''','''	actualPreSuffix, requiredPreSuffix := actual.preSuffix.rank(), required.preSuffix.rank()
'''),S('type Version struct {','''func (m packageVersionPreModifier) rank() packageVersionPreModifier {
	if m == packageVersionPreModifierNone {
		return packageVersionPreModifierMax
	}
	return m
}

type Version struct {''')],expect=0)
M('R satisfies ge',p,[S('return c == greater || c == equal','return c != less'),S('return c == less || c == equal','return c <= equal')],expect=0)
M('R satisfies helper op',p,[S('''		switch matcher {
		case "=":
			p.dep = versionEqual
		case ">":
			p.dep = versionGreater
		case "<":
			p.dep = versionLess
		case ">=", "=>":
			p.dep = versionGreaterEqual
		case "<=", "=<":
			p.dep = versionLessEqual
		case "~", "~=", "=~":
			p.dep = versionTilde
		default:
			p.dep = versionAny
		}
''','''		p.dep = operatorOf(matcher)
'''),S('type filterOptions struct','''var operators = map[string]versionDependency{
	"=":  versionEqual,
	">":  versionGreater,
	"<":  versionLess,
	">=": versionGreaterEqual, "=>": versionGreaterEqual,
	"<=": versionLessEqual, "=<": versionLessEqual,
	"~": versionTilde, "~=": versionTilde, "=~": versionTilde,
}

func operatorOf(s string) versionDependency {
	if dep, ok := operators[s]; ok {
		return dep
	}
	return versionAny
}

type filterOptions struct''')],expect=0)
M('R satisfies map of funcs',p,[S('''	c := CompareVersions(actualVersion, requiredVersion)
	switch v {
	case versionAny:
		return true
	case versionEqual:
		return c == equal
	case versionGreater:
		return c == greater
	case versionLess:
		return c == less
	case versionGreaterEqual:
		return c == greater || c == equal
	case versionLessEqual:
		return c == less || c == equal
	default:
		return false
	}
}''','''	accept, ok := acceptors[v]
	return ok && accept(CompareVersions(actualVersion, requiredVersion))
}

var acceptors = map[versionDependency]func(int) bool{
	versionAny:          func(int) bool { return true },
	versionEqual:        func(c int) bool { return c == equal },
	versionGreater:      func(c int) bool { return c == greater },
	versionLess:         func(c int) bool { return c == less },
	versionGreaterEqual: func(c int) bool { return c >= equal },
	versionLessEqual:    func(c int) bool { return c <= equal },
}''')],expect=0)
M('R FindStringSubmatch',p,[S('''	parts := versionRegex.FindAllStringSubmatch(version, -1)
	if len(parts) == 0 {
		return Version{}, fmt.Errorf("invalid version %s, could not parse", version)
	}
	actuals := parts[0]
''','''	actuals := versionRegex.FindStringSubmatch(version)
	if actuals == nil {
		return Version{}, fmt.Errorf("invalid version %s, could not parse", version)
	}
''')],expect=0)
M('R parse number helper',p,[S('''	var revision int
	if actuals[13] != "" {
		num, err := strconv.Atoi(actuals[13])
		if err != nil {
			return Version{}, fmt.Errorf("invalid version %s, revision %s is not number: %w", version, actuals[13], err)
		}
		revision = num
	}
''','''	revision, err := optionalNumber(actuals[13])
	if err != nil {
		return Version{}, fmt.Errorf("invalid version %s, revision %s is not number: %w", version, actuals[13], err)
	}
'''),S('// CompareVersions compares','''func optionalNumber(s string) (int, error) {
	if s == "" {
		return 0, nil
	}
	return strconv.Atoi(s)
}

// CompareVersions compares''')],expect=0)
M('R letter rune loop',p,[S('''	if len(actuals[4]) > 0 {
		letter = rune(actuals[4][0])
	}''','''	if l := actuals[4]; l != "" {
		letter = rune(l[0])
	}''')],expect=0)
M('R letter range',p,[S('''	if len(actuals[4]) > 0 {
		letter = rune(actuals[4][0])
	}''','''	for _, r := range actuals[4] {
		letter = r
	}''')],expect=0)
M('R preallocate',p,[S('numbers := make([]int, 0, 10)','var numbers []int')],expect=0)
M('R first in loop',p,[S('''	// get the first version number
	num, err := strconv.Atoi(actuals[1])
	if err != nil {
		return Version{}, fmt.Errorf("invalid version %s, first part is not number: %w", version, err)
	}
	numbers = append(numbers, num)

	// get any other version numbers
	if actuals[2] != "" {
		subparts := strings.Split(actuals[2], ".")
		for i, s := range subparts {
			if s == "" {
				continue
			}
			num, err''','''	{
		for i, s := range strings.Split(actuals[1]+actuals[2], ".") {
			num, err''')],expect=0)
