"""Edits that keep the behaviour: every check has to stay quiet on them. usage: refactor.py [-t] [-c C01,C02] [name...]"""
import os, sys, subprocess, tempfile, shutil, json, re
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
def r(name, *edits): R[name] = edits
# (file, old, new): old must occur once unless a count is given as a fourth element
r("helper-quote-parity", ("others.go", """			for n := i - 1; n > -1; n-- {
				if json[n] != 92 {
					if (i-n)%2 != 0 {
						inQuote = !inQuote
						break
					} else {
						break
					}
				}
				continue
			}
			continue
""", """			if realQuote(json, i) {
				inQuote = !inQuote
			}
			continue
"""), ("utils.go", "func space(curr byte) bool {", """func realQuote(json []byte, i int) bool {
	n := i - 1
	for n >= 0 && json[n] == 92 {
		n--
	}
	return n >= 0 && (i-n)%2 != 0
}

func space(curr byte) bool {"""))
r("helper-skip-space", ("inter_core.go", """	for offset < len(json) && space(json[offset]) {
		offset++
	}
""", """	offset = skipSpace(json, offset)
""", 2), ("utils.go", "func space(curr byte) bool {", """func skipSpace(json []byte, at int) int {
	for at < len(json) && space(json[at]) {
		at++
	}
	return at
}

func space(curr byte) bool {"""))
r("space-switch", ("utils.go", re.compile(r"func space\(curr byte\) bool \{.*?\n\}\n", re.S), """func space(curr byte) bool {
	switch curr {
	case ' ', '\\t', '\\n', '\\r':
		return true
	}
	return false
}
"""))
r("space-or", ("utils.go", re.compile(r"func space\(curr byte\) bool \{.*?\n\}\n", re.S), """func space(curr byte) bool {
	return curr == 32 || curr == 9 || curr == 10 || curr == 13
}
"""))
r("replace-copy", ("utils.go", re.compile(r"func replace\(.*?\n\}\n", re.S), """func replace(json, newValue []byte, start, end int) []byte {
	newJSON := make([]byte, len(json)-end+start+len(newValue))
	n := copy(newJSON, json[:start])
	n += copy(newJSON[n:], newValue)
	copy(newJSON[n:], json[end:])
	return newJSON
}
"""))
r("replace-nested-append", ("utils.go", re.compile(r"func replace\(.*?\n\}\n", re.S), """func replace(json, newValue []byte, start, end int) []byte {
	size := len(json) - (end - start) + len(newValue)
	out := make([]byte, 0, size)
	return append(append(append(out, json[:start]...), newValue...), json[end:]...)
}
"""))
r("cleanvalue-for", ("utils.go", """	for i := start; i < lens-1; i++ {
		if !space(str[i]) {
			break
		}
		start++
	}
	for i := end; i > start; i-- {
		if !space(str[i]) {
			break
		}
		end--
	}
""", """	for start < lens-1 && space(str[start]) {
		start++
	}
	for end > start && space(str[end]) {
		end--
	}
"""))
r("early-return-delete", ("inter_delete.go", """	if (json[startEdge] == 91 || json[startEdge] == 123) && json[startEdge]+2 == json[endEdge] {
		json = replace(json, []byte{}, start, e)
		return json, nil
	}
	if json[endEdge] == 44 {
		json = replace(json, []byte{}, start, endEdge+1)
		return json, nil
	}
	if json[startEdge] == 44 {
		json = replace(json, []byte{}, startEdge, e)
		return json, nil
	}
	return json, errBadJSON(start)
""", """	opens := json[startEdge] == 91 || json[startEdge] == 123
	switch {
	case opens && json[startEdge]+2 == json[endEdge]:
		return replace(json, nil, start, e), nil
	case json[endEdge] == 44:
		return replace(json, nil, start, endEdge+1), nil
	case json[startEdge] == 44:
		return replace(json, nil, startEdge, e), nil
	}
	return json, errBadJSON(start)
"""))
r("helper-find-object", ("inter_add.go", """	if len(path) == 0 {
		for i := 0; i < len(json); i++ {
			if !space(json[i]) {
				if json[i] == 91 {
					start = i
					if i == len(json)-1 {
						return json, errBadJSON(i)
					}
					break
				} else {
					return json, errArrayExpected()
				}
			}
		}
		for i := len(json) - 1; i > -1; i-- {
			if !space(json[i]) {
				if json[i] == 93 {
					end = i + 1
					if i == 0 {
						return json, errBadJSON(i)
					}
					break
				} else {
					return json, errArrayExpected()
				}
			}
		}
	} else {
		_, start, end, err = core(json, false, path...)
		if err != nil {
			return json, err
		}
		if start > 0 && json[start-1] == 34 {
			// a string that looks like an array
			return json, errArrayExpected()
		}
	}
	if json[start] == 91 && json[end-1] == 93 {
		empty := true
		for i := start + 1; i < end-1; i++ {
			if !space(json[i]) {
				empty = false
			}
		}
		if empty {
			json = replace(json, value, end-1, end-1)
			return json, nil
		}
		val := make([]byte, len(value)+1)
		val[0] = 44
		copy(val[1:], value)
		json = replace(json, val, end-1, end-1)
		return json, nil
	}
	return json, errArrayExpected()
}
""", """	if len(path) == 0 {
		start, end, err = rootArray(json)
	} else {
		_, start, end, err = core(json, false, path...)
		if err == nil && start > 0 && json[start-1] == 34 {
			err = errArrayExpected()
		}
	}
	if err != nil {
		return json, err
	}
	if json[start] != 91 || json[end-1] != 93 {
		return json, errArrayExpected()
	}
	val := value
	if !blank(string(json[start+1 : end-1])) {
		val = append([]byte{44}, value...)
	}
	return replace(json, val, end-1, end-1), nil
}

func rootArray(json []byte) (start int, end int, err error) {
	for i := 0; i < len(json); i++ {
		if !space(json[i]) {
			if json[i] != 91 {
				return 0, 0, errArrayExpected()
			}
			start = i
			if i == len(json)-1 {
				return 0, 0, errBadJSON(i)
			}
			break
		}
	}
	for i := len(json) - 1; i >= 0; i-- {
		if !space(json[i]) {
			if json[i] != 93 {
				return 0, 0, errArrayExpected()
			}
			end = i + 1
			if i == 0 {
				return 0, 0, errBadJSON(i)
			}
			break
		}
	}
	return start, end, nil
}
"""))
r("blank-inline", ("inter_add.go", """		empty := true
		for i := start + 1; i < end-1; i++ {
			if !space(json[i]) {
				empty = false
			}
		}
		if empty {
""", """		if blank(string(json[start+1 : end-1])) {
""", 2))
r("helper-root-bounds", ("inter_add.go", re.compile(r"		for i := 0; i < len\(json\); i\+\+ \{\n			if !space\(json\[i\]\) \{\n				if json\[i\] == 123 .*?\n		\}\n		for .*?\n		\}\n", re.S), """		start, end, err = rootBounds(json, 123, 125, errObjectExpected())
		if err != nil {
			return json, err
		}
""", -1), ("inter_add.go", re.compile(r"		for i := 0; i < len\(json\); i\+\+ \{\n			if !space\(json\[i\]\) \{\n				if json\[i\] == 91 .*?\n		\}\n		for .*?\n		\}\n", re.S), """		start, end, err = rootBounds(json, 91, 93, errArrayExpected())
		if err != nil {
			return json, err
		}
""", -1), ("utils.go", "func space(curr byte) bool {", """func rootBounds(json []byte, open, closing byte, expected error) (int, int, error) {
	start, end := 0, 0
	for i := 0; i < len(json); i++ {
		if space(json[i]) {
			continue
		}
		if json[i] != open {
			return 0, 0, expected
		}
		if i == len(json)-1 {
			return 0, 0, errBadJSON(i)
		}
		start = i
		break
	}
	for i := len(json) - 1; i >= 0; i-- {
		if space(json[i]) {
			continue
		}
		if json[i] != closing {
			return 0, 0, expected
		}
		if i == 0 {
			return 0, 0, errBadJSON(i)
		}
		end = i + 1
		break
	}
	return start, end, nil
}

func space(curr byte) bool {"""))
r("empty-break", ("inter_add.go", """			if !space(json[i]) {
				empty = false
			}
""", """			if !space(json[i]) {
				empty = false
				break
			}
""", 2))
r("core-table-helper", ("inter_core.go", """	chars := []byte{34, 44, 58, 91, 93, 123, 125}
	// creating a bool array fill with false
	isJSONChar := make([]bool, 256)
	// only interested chars is true
	for _, v := range chars {
		isJSONChar[v] = true
	}
""", """	isJSONChar := charTable(34, 44, 58, 91, 93, 123, 125)
"""), ("utils.go", "func space(curr byte) bool {", """func charTable(chars ...byte) []bool {
	table := make([]bool, 256)
	for _, v := range chars {
		table[v] = true
	}
	return table
}

func space(curr byte) bool {"""))
r("core-array-table", ("inter_core.go", "	isJSONChar := make([]bool, 256)\n", "	var isJSONChar [256]bool\n"))
r("core-ge-zero", ("inter_core.go", re.compile(r"n > -1; n--"), "n >= 0; n--", 4))
r("core-tail-helper", ("inter_core.go", """			for i := offset; i < len(json); i++ {
				curr := json[i]
				// if current byte is space or one of these ',' ']' '}' this means end of the value is i
				if space(curr) || curr == 44 || curr == 93 || curr == 125 {
					if offset == i {
						return -1, -1, -1, errEmptyArray()
					}
					return keyStart, offset, i, nil
				}
			}
""", """			end := endOfScalar(json, offset)
			if end == offset {
				return -1, -1, -1, errEmptyArray()
			}
			if end > 0 {
				return keyStart, offset, end, nil
			}
"""), ("utils.go", "func space(curr byte) bool {", """func endOfScalar(json []byte, from int) int {
	for i := from; i < len(json); i++ {
		curr := json[i]
		if space(curr) || curr == 44 || curr == 93 || curr == 125 {
			return i
		}
	}
	return -1
}

func space(curr byte) bool {"""))
r("core-string-helper", ("inter_core.go", """			for i := offset + 1; i < len(json); i++ {
				curr := json[i]
				if curr == 92 {
					i++
					continue
				} else {
					// find ending quote
					if curr == 34 {
						// just interested with json chars. Other wise continue.
						return keyStart, offset + 1, i, nil
					}
				}
			}
""", """			i := offset + 1
			for i < len(json) && json[i] != 34 {
				if json[i] == 92 {
					i++
				}
				i++
			}
			if i < len(json) {
				return keyStart, offset + 1, i, nil
			}
"""))
r("core-const-last", ("inter_core.go", "	offset := 0\n	currentPath := path[0]\n", "	offset := 0\n	lastIndex := len(path) - 1\n	currentPath := path[0]\n"), ("inter_core.go", "k != len(path)-1", "k != lastIndex", 3), ("inter_core.go", "k == len(path)-1", "k == lastIndex", 2))
r("core-same-helper", ("inter_core.go", """							if len(currentPath) == end-start {
								same := true
								// compare all elements
								for j := 0; j < len(currentPath); j++ {
									if currentPath[j] != json[start+j] {
										same = false
										break
									} else {
										continue
									}
								}
								if same {
""", """							if len(currentPath) == end-start {
								if string(json[start:end]) == currentPath {
"""))
r("seq-append", ("sequence.go", re.compile(r"func \(s \*sequance\) push.*?\n\}\n", re.S), """func (s *sequance) push(element int) {
	if s.index >= s.length {
		s.list = append(s.list, 0, 0, 0, 0)
		s.length += 4
	}
	s.list[s.index] = element
	s.index++
}
"""))
r("seq-invert", ("sequence.go", """	if s.index > 0 {
		s.index--
		return s.list[s.index]
	}
	return 0
""", """	if s.index <= 0 {
		return 0
	}
	s.index--
	return s.list[s.index]
"""))
r("pcore-addnode", ("parse_core.go", """				switch last {
				case 58:
					newNode := &node{up: core, label: byteArrayToString(key)}
					core.down = append(core.down, newNode)
					core = newNode
				default:
					newNode := &node{up: core, label: strconv.Itoa(indexList.last())}
					core.down = append(core.down, newNode)
					core = newNode
				}
""", """				var label string
				if last == 58 {
					label = byteArrayToString(key)
				} else {
					label = strconv.Itoa(indexList.last())
				}
				core = core.child(label)
"""), ("parse_core.go", "func pCore(", """func (n *node) child(label string) *node {
	c := &node{up: n, label: label}
	n.down = append(n.down, c)
	return c
}

func pCore("""))
r("iterate-cut-helper", ("inter_iter.go", "callback(cleanValue(json[start:i]))", "callback(cut(json, start, i))", 2), ("inter_iter.go", "func IterateKeyValue(", """func cut(json []byte, from, to int) []byte {
	value := json[from:to]
	return cleanValue(value)
}

func IterateKeyValue("""))
r("walk-helper", ("walk.go", """		key := ""
		if len(path) != 0 {
			key = path[len(path)-1]
		}
		val, err := Get(json, path...)
""", """		key := lastOf(path)
		val, err := Get(json, path...)
"""), ("walk.go", "func walk(", """func lastOf(path []string) string {
	if n := len(path); n > 0 {
		return path[n-1]
	}
	return ""
}

func walk("""))
r("make-loop-index", ("make.go", """	for _, v := range values {
		js = append(js, []byte(strconv.Itoa(v))...)
		js = append(js, 44)
	}
	js = js[:len(js)-1]
	js = append(js, 93)
	return js
""", """	for i := 0; i < len(values); i++ {
		if i > 0 {
			js = append(js, ',')
		}
		js = strconv.AppendInt(js, int64(values[i]), 10)
	}
	return append(js, ']')
"""))
r("make-last-overwrite", ("make.go", """	for _, v := range values {
		js = append(js, []byte(formatType(v))...)
		js = append(js, 44)
	}
	js = js[:len(js)-1]
	js = append(js, 93)
	return js
""", """	for _, v := range values {
		js = append(js, formatType(v)...)
		js = append(js, 44)
	}
	js[len(js)-1] = 93
	return js
"""))
r("set-quoted-helper", ("inter_set.go", """	if end < len(json) && json[start-1] == 34 && json[end] == 34 {
		return replace(json, newValue, start-1, end+1), nil
	}
	return replace(json, newValue, start, end), nil
""", """	if quoted(json, start, end) {
		start, end = start-1, end+1
	}
	return replace(json, newValue, start, end), nil
"""), ("inter_set.go", "func Set(json", """func quoted(json []byte, start, end int) bool {
	return end < len(json) && json[start-1] == '"' && json[end] == '"'
}

func Set(json"""))
r("jo-generic-helper", ("jin_object_set.go", re.compile(r"func \(j \*JO\) Set\(.*?\n\}\n", re.S), """func (j *JO) Set(newValue []byte, path ...string) error {
	newBody, err := Set(j.body, newValue, path...)
	if err == nil {
		j.body = newBody
	}
	return err
}
"""))
r("length-rename", ("others.go", "	length := 0\n	level := 0\n	inQuote := false\n", "	var length, level int\n	var inQuote bool\n"), ("others.go", """		if curr == 123 || curr == 91 {
			level++
			continue
		}
		if curr == 125 || curr == 93 {
			level--
			continue
		}
		if curr == 44 && level == 1 {
			length++
		}
""", """		switch curr {
		case '{', '[':
			level++
		case '}', ']':
			level--
		case ',':
			if level == 1 {
				length++
			}
		}
"""))
r("flatten-ifelse", ("others.go", """		if inQuote {
			newJSON = append(newJSON, curr)
			continue
		} else {
			if !space(curr) {
				newJSON = append(newJSON, curr)
				continue
			}
		}
	}
	return newJSON
}

// Indent""", """		if inQuote || !space(curr) {
			newJSON = append(newJSON, curr)
		}
	}
	return newJSON
}

// Indent"""))
r("indent-newline-helper", ("others.go", """					// NL
					newJSON = append(newJSON, 10)
					// tab
					newJSON = append(newJSON, createTabs(level)...)
""", """					newJSON = breakLine(newJSON, level)
""", 5), ("others.go", "// ParseArray is", """func breakLine(out []byte, level int) []byte {
	out = append(out, '\\n')
	return append(out, createTabs(level)...)
}

// ParseArray is"""))
r("getstart-named", ("utils.go", """	lenp := len(path)
	if lenp != 0 {
		_, start, end, err = core(json, false, path...)
		if err != nil {
			return -1, -1, err
		}
	} else {
		for start < len(json) && space(json[start]) {
			start++
		}
		if start >= len(json) {
			return -1, -1, errBadJSON(start)
		}
		end = lenj - 1
		for end > start && space(json[end]) {
			end--
		}
		// end is exclusive, as in core
		end++
	}
	return start, end, nil
""", """	if len(path) > 0 {
		if _, start, end, err = core(json, false, path...); err != nil {
			return -1, -1, err
		}
		return start, end, nil
	}
	for start < lenj && space(json[start]) {
		start++
	}
	if start == lenj {
		return -1, -1, errBadJSON(start)
	}
	for end = lenj; end-1 > start && space(json[end-1]); end-- {
	}
	return start, end, nil
"""))

SCAN = "		var isJSONChar"
def parity(v):
    return f"""				for {v} := i - 1; {v} > -1; {v}-- {{
"""
r("edges-helper", ("inter_delete.go", re.compile(r"	var startEdge int\n.*?	if endEdge == 0", re.S), """	startEdge, endEdge := edges(json, start, e)
	if endEdge == 0"""), ("inter_add.go", re.compile(r"	var startEdge int\n.*?	if endEdge == 0", re.S), """	startEdge, endEdge := edges(json, start, end)
	if endEdge == 0"""), ("utils.go", "func space(curr byte) bool {", """// edges finds the first bytes before start and from end on that are not space.
func edges(json []byte, start, end int) (startEdge int, endEdge int) {
	for i := start - 1; i > 0; i-- {
		if !space(json[i]) {
			startEdge = i
			break
		}
	}
	for i := end; i < len(json); i++ {
		if !space(json[i]) {
			endEdge = i
			break
		}
	}
	return
}

func space(curr byte) bool {"""))
r("gettype-if", ("inter_type.go", """	switch json[start] {
	case '[':
		return TypeArray, nil
	case '{':
		return TypeObject, nil
	case '"':
		return TypeString, nil
	}
""", """	first := json[start]
	if first == 34 {
		return TypeString, nil
	} else if first == 123 {
		return TypeObject, nil
	} else if first == 91 {
		return TypeArray, nil
	}
"""))
r("control-helper", ("inter_type.go", """	for _, v := range control {
		if json[start] == v {
			if equal {
				return true, start, nil
			}
			return false, start, nil
		}
	}
	if equal {
		return false, start, nil
	}
	return true, start, nil
""", """	return has(control, json[start]) == equal, start, nil
"""), ("inter_type.go", "func typeControlCore(", """func has(set []byte, b byte) bool {
	for i := range set {
		if set[i] == b {
			return true
		}
	}
	return false
}

func typeControlCore("""))
r("isempty-reorder", ("inter_type.go", """	if braceStart == 91 || braceStart == 123 {
		if braceStart+2 != braceEnd {
			return false, errBadJSON(end)
		}
		for i := start + 1; i < end; i++ {
			if !space(json[i]) {
				return false, nil
			}
		}
	} else {
		return false, errObjectExpected()
	}
	return true, nil
""", """	if braceStart != 91 && braceStart != 123 {
		return false, errObjectExpected()
	}
	if braceEnd != braceStart+2 {
		return false, errBadJSON(end)
	}
	start++
	for start < end && space(json[start]) {
		start++
	}
	return start >= end, nil
"""))
r("intarray-closure", ("inter_get.go", """							num, err := strconv.Atoi(cleanValueString(element))
							if err != nil {
								return nil, errIntegerParse(cleanValueString(element))
							}
							newArray = append(newArray, num)
							break
""", """							newArray, err = appendInt(newArray, element)
							if err != nil {
								return nil, err
							}
							break
"""), ("inter_get.go", """						num, err := strconv.Atoi(cleanValueString(element))
						if err != nil {
							return nil, errIntegerParse(cleanValueString(element))
						}
						newArray = append(newArray, num)
""", """						newArray, err = appendInt(newArray, element)
						if err != nil {
							return nil, err
						}
"""), ("inter_get.go", "// GetFloatArray is a", """func appendInt(list []int, element string) ([]int, error) {
	element = cleanValueString(element)
	num, err := strconv.Atoi(element)
	if err != nil {
		return nil, errIntegerParse(element)
	}
	return append(list, num), nil
}

// GetFloatArray is a"""))
r("parsearray-switch", ("others.go", """				if curr == 91 || curr == 123 {
					level++
				}
				if curr == 93 || curr == 125 {
					level--
					if curr == 93 {
						if level == 0 {
							val := arr[start:i]
							if len(newArray) == 0 && blank(val) {
								break
							}
							val = cleanValueString(val)
							newArray = append(newArray, val)
							break
						}
					}
				}
				if level == 1 {
					if curr == 44 {
						val := arr[start:i]
						val = cleanValueString(val)
						newArray = append(newArray, val)
						start = i + 1
						continue
					}
				}
""", """				switch curr {
				case '[', '{':
					level++
				case ']':
					level--
					if level == 0 {
						val := arr[start:i]
						if len(newArray) > 0 || !blank(val) {
							newArray = append(newArray, cleanValueString(val))
						}
						return newArray
					}
				case '}':
					level--
				case ',':
					if level == 1 {
						newArray = append(newArray, cleanValueString(arr[start:i]))
						start = i + 1
					}
				}
"""))
r("iterate-array-switch", ("inter_iter.go", """			if curr == 91 || curr == 123 {
				level++
				continue
			}
			if curr == 93 || curr == 125 {
				if level < 0 {
					return nil
				}
				if curr == 93 {
					if level == 0 {
						if start == first && blank(string(json[start:i])) {
							// no element before the closing brace, array is empty
							return nil
						}
						_, innerError := callback(cleanValue(json[start:i]))
						return innerError
					}
				}
				level--
				continue
			}
			if level == 0 {
				if curr == 44 {
					keepGoing, innerError := callback(cleanValue(json[start:i]))
					if innerError != nil {
						return innerError
					}
					if !keepGoing {
						return nil
					}
					start = i + 1
					continue
				}
			}
""", """			switch curr {
			case '[', '{':
				level++
			case ']', '}':
				if level < 0 {
					return nil
				}
				if curr == ']' && level == 0 {
					if start == first && blank(string(json[start:i])) {
						return nil
					}
					_, innerError := callback(cleanValue(json[start:i]))
					return innerError
				}
				level--
			case ',':
				if level != 0 {
					break
				}
				keepGoing, innerError := callback(cleanValue(json[start:i]))
				if innerError != nil || !keepGoing {
					return innerError
				}
				start = i + 1
			}
"""))
r("getkeys-emit-helper", ("inter_get.go", """					if level == 1 {
						if hasKey {
							value := cleanValueString(string(json[start:i]))
							values = append(values, value)
						}
						break
					}
""", """					if level == 1 {
						if hasKey {
							values = appendValue(values, json, start, i)
						}
						break
					}
""", 2), ("inter_get.go", """					if level == 1 {
						value := cleanValueString(string(json[start:i]))
						values = append(values, value)
						start = i + 1
					}
""", """					if level == 1 {
						values = appendValue(values, json, start, i)
						start = i + 1
					}
""", 2), ("inter_get.go", "// GetFloatArray is a", """func appendValue(values []string, json []byte, from, to int) []string {
	return append(values, cleanValueString(string(json[from:to])))
}

// GetFloatArray is a"""))
r("getmap-helper", ("inter_get.go", """	if json[start] == 123 && json[end-1] == 125 {
		err = IterateKeyValue(json, func(key, val []byte) (bool, error) {
			mainMap[string(key)] = string(val)
			return true, nil
		}, path...)
		if err != nil {
			return nil, err
		}
		return mainMap, nil
	}
	if json[start] == 91 && json[end-1] == 93 {
		count := 0
		err = IterateArray(json, func(val []byte) (bool, error) {
			mainMap[strconv.Itoa(count)] = string(val)
			count++
			return true, nil
		}, path...)
		if err != nil {
			return nil, err
		}
		return mainMap, nil
	}
	return nil, errBadJSON(start)
""", """	switch {
	case json[start] == 123 && json[end-1] == 125:
		err = IterateKeyValue(json, func(key, val []byte) (bool, error) {
			mainMap[string(key)] = string(val)
			return true, nil
		}, path...)
	case json[start] == 91 && json[end-1] == 93:
		err = IterateArray(json, func(val []byte) (bool, error) {
			mainMap[strconv.Itoa(len(mainMap))] = string(val)
			return true, nil
		}, path...)
	default:
		err = errBadJSON(start)
	}
	if err != nil {
		return nil, err
	}
	return mainMap, nil
"""))
r("getall-common", ("inter_get.go", """	results := make(map[string]string)
	for _, k := range keys {
		val, err = GetString(json, appendPath(path, k)...)
		if err != nil {
			return nil, err
		}
		results[k] = val
	}
	return results, nil
""", """	var values []string
	values, err = GetAll(json, keys, path...)
	if err != nil {
		return nil, err
	}
	results := make(map[string]string, len(keys))
	for i := range keys {
		val = values[i]
		results[keys[i]] = val
	}
	return results, nil
"""))
r("parser-child-helper", ("parse_utils.go", re.compile(r"func \(n \*node\) walk\(.*?\n\}\n", re.S), """func (n *node) walk(path []string) (*node, error) {
	for _, p := range path {
		i := n.getIndex(p)
		if i < 0 {
			return nil, errKeyNotFound(p)
		}
		n = n.down[i]
	}
	return n, nil
}
"""))
r("parser-attach-append", ("parse_utils.go", """	for i, d := range n.down {
		if i == index {
			newDown = append(newDown, newNode)
		}
		newDown = append(newDown, d)
	}
	if index >= len(n.down) {
		newDown = append(newDown, newNode)
	}
""", """	if index > len(n.down) {
		index = len(n.down)
	}
	if index < 0 {
		newDown = append(newDown, n.down...)
	} else {
		newDown = append(newDown, n.down[:index]...)
		newDown = append(newDown, newNode)
		newDown = append(newDown, n.down[index:]...)
	}
"""), ("parse_utils.go", """	for i, d := range n.down {
		if i != index {
			newDown = append(newDown, d)
		}
	}
""", """	for i := 0; i < len(n.down); i++ {
		if i == index {
			continue
		}
		newDown = append(newDown, n.down[i])
	}
"""))
r("parser-refresh-forward", ("parse_utils.go", """	values := make([][]byte, 0, len(path))
	for i := len(path); i > 0; i-- {
		value, err := Get(json, path[:i]...)
		if err != nil {
			return err
		}
		values = append(values, value)
	}
	for _, value := range values {
		if n == nil {
			break
		}
		n.value = value
		n = n.up
	}
""", """	values := make([][]byte, len(path))
	for i := range path {
		value, err := Get(json, path[:i+1]...)
		if err != nil {
			return err
		}
		values[i] = value
	}
	for i := len(values) - 1; i >= 0 && n != nil; i-- {
		n.value = values[i]
		n = n.up
	}
"""))
r("parser-replace-helper", ("parse_set.go", """	parent, err := p.core.walk(path[:lenp-1])
	if err != nil {
		return err
	}
	index := parent.getIndex(path[lenp-1])
	if index == -1 {
		return errKeyNotFound(path[lenp-1])
	}
""", """	parent, index, err := p.locate(path)
	if err != nil {
		return err
	}
""", 2), ("parse_delete.go", """	parent, err := p.core.walk(path[:lenp-1])
	if err != nil {
		return err
	}
	index := parent.getIndex(path[lenp-1])
	if index == -1 {
		return errKeyNotFound(path[lenp-1])
	}
""", """	parent, index, err := p.locate(path)
	if err != nil {
		return err
	}
"""), ("parse_utils.go", "func (n *node) getIndex(", """// locate finds the node above the one the path leads to and its place there; the path is not empty.
func (p *Parser) locate(path []string) (*node, int, error) {
	last := len(path) - 1
	parent, err := p.core.walk(path[:last])
	if err != nil {
		return nil, -1, err
	}
	index := parent.getIndex(path[last])
	if index == -1 {
		return nil, -1, errKeyNotFound(path[last])
	}
	return parent, index, nil
}

func (n *node) getIndex("""))
r("parser-dive-helper", ("parse_utils.go", """		if n.value[0] == 123 {
			temp = append(temp, packKeyValue(d.label, val)...)
		}
		if n.value[0] == 91 {
			temp = append(temp, packValue(val)...)
		}
""", """		switch n.value[0] {
		case 123:
			temp = append(temp, packKeyValue(d.label, val)...)
		case 91:
			temp = append(temp, val...)
		}
"""))
r("addbool-format", ("inter_add.go", """	if value {
		return AddKeyValue(json, key, []byte("true"), path...)
	}
	return AddKeyValue(json, key, []byte("false"), path...)
""", """	return AddKeyValue(json, key, []byte(strconv.FormatBool(value)), path...)
"""), ("inter_add.go", """	if value {
		return Add(json, []byte("true"), path...)
	}
	return Add(json, []byte("false"), path...)
""", """	text := "false"
	if value {
		text = "true"
	}
	return Add(json, []byte(text), path...)
"""), ("inter_set.go", """	return Set(json, []byte(strconv.Itoa(newValue)), path...)
""", """	return Set(json, strconv.AppendInt(nil, int64(newValue), 10), path...)
"""), ("inter_set.go", """	if newValue {
		return Set(json, []byte("true"), path...)
	}
	return Set(json, []byte("false"), path...)
""", """	if !newValue {
		return Set(json, []byte("false"), path...)
	}
	return Set(json, []byte("true"), path...)
"""))
r("format-helper", ("utils.go", """	start := val[0]
	end := val[len(val)-1]
	// if its starts with `"` and ends with `"`  return it self
	if start == 34 && end == 34 {
		return val
	}
	// if its starts with `[` and ends with `]` return it self
	if start == 91 && end == 93 {
		return val
	}
	// if its starts with `{` and ends with `}` return it self
	if start == 123 && end == 125 {
		return val
	}
	return `"` + val + `"`
""", """	if enclosed(val, 34, 34) || enclosed(val, 91, 93) || enclosed(val, 123, 125) {
		return val
	}
	return "\\"" + val + "\\""
"""), ("utils.go", "func digit(", """func enclosed(val string, first, last byte) bool {
	return val[0] == first && val[len(val)-1] == last
}

func digit("""))
r("number-digits-helper", ("utils.go", re.compile(r"func isNumber\(.*?\n\}\n", re.S), """func isNumber(val string) bool {
	i := 0
	if len(val) > 0 && val[0] == '-' {
		i = 1
	}
	n := digits(val, i)
	if n == i || (val[i] == '0' && n-i > 1) {
		return false
	}
	i = n
	if i < len(val) && val[i] == '.' {
		n = digits(val, i+1)
		if n == i+1 {
			return false
		}
		i = n
	}
	if i < len(val) && (val[i] == 'e' || val[i] == 'E') {
		i++
		if i < len(val) && (val[i] == '+' || val[i] == '-') {
			i++
		}
		n = digits(val, i)
		if n == i {
			return false
		}
		i = n
	}
	return i == len(val)
}

// digits is where the digits at i end.
func digits(val string, i int) int {
	for i < len(val) && digit(val[i]) {
		i++
	}
	return i
}
"""))
r("setkey-early", ("inter_set.go", re.compile(r"	_, _, _, err = core\(json, false, newPath\.\.\.\)\n.*?\n\}\n", re.S), """	_, _, _, err = core(json, false, newPath...)
	if err == nil {
		return json, errKeyAlreadyExist(newKey)
	}
	if !ErrEqual(err, ErrCodeKeyNotFound) {
		return json, err
	}
	keyStart, start, _, err = core(json, false, path...)
	if err != nil {
		return json, err
	}
	if keyStart < 0 {
		return json, errObjectExpected()
	}
	i := keyStart
	for i < start {
		curr := json[i]
		if curr == 92 {
			i++
		}
		if curr == 34 {
			return replace(json, []byte(newKey), keyStart, i), nil
		}
		i++
	}
	return json, errBadJSON(keyStart)
}
"""))
r("store-set", ("inter_set.go", re.compile(r"	_, start, end, err := core\(json, false, appendPath\(path, key\)\.\.\.\)\n.*?\n\}\n", re.S), """	_, start, end, err := core(json, false, appendPath(path, key)...)
	if ErrEqual(err, ErrCodeKeyNotFound) {
		return AddKeyValue(json, key, value, path...)
	}
	if err != nil {
		return json, err
	}
	return setValue(json, value, start, end), nil
}

func setValue(json, value []byte, start, end int) []byte {
	if end < len(json) && json[start-1] == 34 && json[end] == 34 {
		start--
		end++
	}
	return replace(json, value, start, end)
}
"""))
r("errors-make", ("errors.go", 'return fmt.Errorf("error: path cannot be null error_code: %02d", ErrCodeNullPath)', 'return makeError("path cannot be null", ErrCodeNullPath)'), ("errors.go", "func ErrEqual(", """func makeError(text string, code int) error {
	return fmt.Errorf("error: %s error_code: %02d", text, code)
}

func ErrEqual("""))
r("walk-visit", ("walk.go", """	keepGoing := true
	switch t {""", """	keepGoing := true
	visit := func(key string) (bool, error) {
		var err error
		keepGoing, err = walk(json, appendPath(path, key), callback)
		return keepGoing, err
	}
	switch t {"""), ("walk.go", """			var err error
			keepGoing, err = walk(json, appendPath(path, string(keyBytes)), callback)
			return keepGoing, err
""", """			return visit(string(keyBytes))
"""), ("walk.go", """			var err error
			keepGoing, err = walk(json, appendPath(path, strconv.Itoa(i)), callback)
			i++
			return keepGoing, err
""", """			i++
			return visit(strconv.Itoa(i - 1))
"""))
r("cleanvalue-while", ("utils.go", """	for i := start; i < lens-1; i++ {
		if !space(str[i]) {
			break
		}
		start++
	}
	for i := end; i > start; i-- {
		if !space(str[i]) {
			break
		}
		end--
	}
	if end > start && str[start] == 34 && str[end] == 34 {
		start++
		end--
	}
	return str[start : end+1]
}

func byte""", """	for start < end && space(str[start]) {
		start++
	}
	for end > start && space(str[end]) {
		end--
	}
	if start < end && str[start] == 34 && str[end] == 34 {
		return str[start+1 : end]
	}
	return str[start : end+1]
}

func byte"""))
r("jo-store-helper", ("jin_object_set.go", """	var err error
	j.body, err = Set(j.body, newValue, path...)
	return err
""", """	body, err := Set(j.body, newValue, path...)
	j.body = body
	return err
"""), ("jin_object_others.go", """	var err error
	j.body, err = Delete(j.body, path...)
	return err
""", """	body, err := Delete(j.body, path...)
	j.body = body
	return err
"""))
r("scheme-check", ("make.go", """		_, err := Get(json, k)
		if err != nil {
			return false
		}
	}
	return true
""", """		if _, err := Get(json, k); err != nil {
			return false
		}
	}
	return true
"""), ("make.go", """	newKeys := make([]string, len(keys))
	copy(newKeys, keys)
	return newKeys
""", """	return append(make([]string, 0, len(keys)), keys...)
"""))
r("core-found-helper", ("inter_core.go", "						if level == 1 {", "						if level-1 == 0 {", -1))
r("indent-tabs-repeat", ("utils.go", re.compile(r"func createTabs\(.*?\n\}\n", re.S), """func createTabs(n int) []byte {
	if n <= 0 {
		return []byte{}
	}
	res := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		res = append(res, 9)
	}
	return res
}
"""))
r("flatten-switch", ("others.go", re.compile(r"(func Flatten\(.*?)\tfor i := 0; i < len\(json\); i\+\+ \{.*?\n\t\}\n\treturn newJSON\n\}\n", re.S), "\\1" + """	for i := 0; i < len(json); i++ {
		curr := json[i]
		switch {
		case inQuote && curr == 92:
			newJSON = append(newJSON, curr)
			if i+1 < len(json) {
				i++
				newJSON = append(newJSON, json[i])
			}
		case curr == 34:
			inQuote = !inQuote
			newJSON = append(newJSON, curr)
		case inQuote || !space(curr):
			newJSON = append(newJSON, curr)
		}
	}
	return newJSON
}
"""))
r("delete-begin-helper", ("inter_delete.go", """	start := 0
	if ks == -1 {
		start = s
		if json[start-1] == 34 {
			start--
		}
	} else {
		start = ks - 1
	}
""", """	start := memberStart(json, ks, s)
"""), ("utils.go", "func space(curr byte) bool {", """// memberStart returns where a member begins, its quotation mark included
func memberStart(json []byte, keyStart, valueStart int) int {
	if keyStart != -1 {
		return keyStart - 1
	}
	if json[valueStart-1] == 34 {
		return valueStart - 1
	}
	return valueStart
}

func space(curr byte) bool {"""))
r("delete-switch", ("inter_delete.go", """	if (json[startEdge] == 91 || json[startEdge] == 123) && json[startEdge]+2 == json[endEdge] {
		json = replace(json, []byte{}, start, e)
		return json, nil
	}
	if json[endEdge] == 44 {
		json = replace(json, []byte{}, start, endEdge+1)
		return json, nil
	}
	if json[startEdge] == 44 {
		json = replace(json, []byte{}, startEdge, e)
		return json, nil
	}
	return json, errBadJSON(start)
""", """	before, after := json[startEdge], json[endEdge]
	switch {
	case (before == '[' && after == ']') || (before == '{' && after == '}'):
		return replace(json, nil, start, e), nil
	case after == ',':
		return replace(json, nil, start, endEdge+1), nil
	case before == ',':
		return replace(json, nil, startEdge, e), nil
	}
	return json, errBadJSON(start)
"""))
r("setkey-helper", ("inter_set.go", """			for i := keyStart; i < start; i++ {
				curr := json[i]
				if curr == 92 {
					i++
				}
				if curr == 34 {
					return replace(json, []byte(newKey), keyStart, i), nil
				}
			}
			return json, errBadJSON(keyStart)
""", """			if keyEnd := closingQuote(json, keyStart, start); keyEnd != -1 {
				return replace(json, []byte(newKey), keyStart, keyEnd), nil
			}
			return json, errBadJSON(keyStart)
"""), ("utils.go", "func space(curr byte) bool {", """// closingQuote returns the place of the first quotation mark that is not escaped
func closingQuote(json []byte, from, to int) int {
	for i := from; i < to; i++ {
		switch json[i] {
		case '\\\\':
			i++
		case '"':
			return i
		}
	}
	return -1
}

func space(curr byte) bool {"""))
r("setkey-path-helper", ("inter_set.go", """	newPath := make([]string, len(path))
	copy(newPath, path[:len(path)-1])
	newPath[len(newPath)-1] = newKey
	_, _, _, err = core(json, false, newPath...)
""", """	_, _, _, err = core(json, false, appendPath(path[:len(path)-1], newKey)...)
"""))
r("setkey-invert", ("inter_set.go", """	_, _, _, err = core(json, false, newPath...)
	if err != nil {
		if ErrEqual(err, ErrCodeKeyNotFound) {
			keyStart, start, _, err = core(json, false, path...)
			if err != nil {
				return json, err
			}
			if keyStart == -1 {
				return json, errObjectExpected()
			}
			for i := keyStart; i < start; i++ {
				curr := json[i]
				if curr == 92 {
					i++
				}
				if curr == 34 {
					return replace(json, []byte(newKey), keyStart, i), nil
				}
			}
			return json, errBadJSON(keyStart)
		}
		return json, err
	}
	return json, errKeyAlreadyExist(newKey)
""", """	_, _, _, err = core(json, false, newPath...)
	if err == nil {
		return json, errKeyAlreadyExist(newKey)
	}
	if !ErrEqual(err, ErrCodeKeyNotFound) {
		return json, err
	}
	keyStart, start, _, err = core(json, false, path...)
	if err != nil {
		return json, err
	}
	if keyStart == -1 {
		return json, errObjectExpected()
	}
	i := keyStart
	for i < start && json[i] != 34 {
		if json[i] == 92 {
			i++
		}
		i++
	}
	if i >= start {
		return json, errBadJSON(keyStart)
	}
	return replace(json, []byte(newKey), keyStart, i), nil
"""))
r("set-span", ("inter_set.go", """	if end < len(json) && json[start-1] == 34 && json[end] == 34 {
		return replace(json, newValue, start-1, end+1), nil
	}
	return replace(json, newValue, start, end), nil
""", """	if json[start-1] == 34 && end < len(json) && json[end] == 34 {
		start, end = start-1, end+1
	}
	return replace(json, newValue, start, end), nil
"""))
r("store-flat", ("inter_set.go", """	_, start, end, err := core(json, false, appendPath(path, key)...)
	if err != nil {
		if ErrEqual(err, ErrCodeKeyNotFound) {
			return AddKeyValue(json, key, value, path...)
		}
		return json, err
	}
	if end""", """	full := append(append([]string{}, path...), key)
	_, start, end, err := core(json, false, full...)
	switch {
	case err == nil:
	case ErrEqual(err, ErrCodeKeyNotFound):
		return AddKeyValue(json, key, value, path...)
	default:
		return json, err
	}
	if end"""))
r("store-callers", ("inter_set.go", """	if newValue {
		return Store(json, key, []byte("true"), path...)
	}
	return Store(json, key, []byte("false"), path...)
""", """	return Store(json, key, []byte(strconv.FormatBool(newValue)), path...)
"""))
r("add-null", ("inter_add.go", """	if value == nil {
		return AddKeyValue(json, key, []byte("null"), path...)
	}
""", """	if value == nil {
		value = []byte("null")
	}
"""))
r("add-value-append", ("inter_add.go", """			val := []byte(`"` + key + `":` + string(value))
			json = replace(json, val, end-1, end-1)
			return json, nil
""", """			val := make([]byte, 0, len(key)+len(value)+3)
			val = append(val, '"')
			val = append(val, key...)
			val = append(val, '"', ':')
			val = append(val, value...)
			return replace(json, val, end-1, end-1), nil
"""), ("inter_add.go", """				val := []byte(`,"` + key + `":` + string(value))
				json = replace(json, val, end-1, end-1)
				return json, nil
""", """				val := append([]byte(`,"`), key...)
				val = append(val, `":`...)
				val = append(val, value...)
				return replace(json, val, end-1, end-1), nil
"""))
r("parser-add-common", ("parse_add.go", """	newNode, err := valueNode(strconv.Itoa(len(curr.down)), newVal)
	if err != nil {
		return err
	}
	json, err := Add(p.json, newVal, path...)
	if err != nil {
		return err
	}
	err = p.refresh(json, curr, path)
	if err != nil {
		return err
	}
	curr.attach(newNode, len(curr.down))
	return nil
""", """	position := len(curr.down)
	newNode, err := valueNode(strconv.Itoa(position), newVal)
	if err != nil {
		return err
	}
	json, err := Add(p.json, newVal, path...)
	if err != nil {
		return err
	}
	return p.commit(json, curr, path, newNode, position)
"""), ("parse_add.go", """	json, err := Insert(p.json, newIndex, newVal, path...)
	if err != nil {
		return err
	}
	err = p.refresh(json, curr, path)
	if err != nil {
		return err
	}
	curr.attach(newNode, newIndex)
	return nil
""", """	json, err := Insert(p.json, newIndex, newVal, path...)
	if err != nil {
		return err
	}
	return p.commit(json, curr, path, newNode, newIndex)
"""), ("parse_utils.go", "func (n *node) attach(", """// commit makes json the new text and hangs the new node into the tree
func (p *Parser) commit(json []byte, n *node, path []string, newNode *node, index int) error {
	if err := p.refresh(json, n, path); err != nil {
		return err
	}
	n.attach(newNode, index)
	return nil
}

func (n *node) attach("""))
r("refresh-index", ("parse_utils.go", """	for _, value := range values {
		if n == nil {
			break
		}
		n.value = value
		n = n.up
	}
""", """	for i := 0; i < len(values) && n != nil; i++ {
		n.value = values[i]
		n = n.up
	}
"""))
r("attach-split", ("parse_utils.go", """	for i, d := range n.down {
		if i == index {
			newDown = append(newDown, newNode)
		}
		newDown = append(newDown, d)
	}
	if index >= len(n.down) {
		newDown = append(newDown, newNode)
	}
""", """	if index >= 0 && index < len(n.down) {
		newDown = append(newDown, n.down[:index]...)
		newDown = append(newDown, newNode)
		newDown = append(newDown, n.down[index:]...)
	} else {
		newDown = append(newDown, n.down...)
		if index >= 0 {
			newDown = append(newDown, newNode)
		}
	}
"""))
r("deattach-split", ("parse_utils.go", """	for i, d := range n.down {
		if i != index {
			newDown = append(newDown, d)
		}
	}
	n.down = newDown
""", """	newDown = append(newDown, n.down[:index]...)
	newDown = append(newDown, n.down[index+1:]...)
	n.down = newDown
"""))
r("pwalk-child", ("parse_utils.go", """	for _, p := range path {
		for _, d := range n.down {
			if d.label == p {
				n = d
				goto cont
			}
		}
		return nil, errKeyNotFound(p)
	cont:
		continue
	}
	return n, nil
""", """	for _, p := range path {
		index := n.getIndex(p)
		if index == -1 {
			return nil, errKeyNotFound(p)
		}
		n = n.down[index]
	}
	return n, nil
"""))
r("typecontrol-helper", ("inter_type.go", """	for _, v := range control {
		if json[start] == v {
			if equal {
				return true, start, nil
			}
			return false, start, nil
		}
	}
	if equal {
		return false, start, nil
	}
	return true, start, nil
""", """	found := false
	for i := 0; i < len(control) && !found; i++ {
		found = control[i] == json[start]
	}
	return found == equal, start, nil
"""))
r("typecontrol-bytes", ("inter_type.go", """	for _, v := range control {
		if json[start] == v {
			if equal {
				return true, start, nil
			}
			return false, start, nil
		}
	}
	if equal {
		return false, start, nil
	}
	return true, start, nil
""", """	return (bytes.IndexByte(control, json[start]) >= 0) == equal, start, nil
"""), ("inter_type.go", 'import "strconv"', 'import (\n\t"bytes"\n\t"strconv"\n)'))
r("isempty-loop", ("inter_type.go", """		for i := start + 1; i < end; i++ {
			if !space(json[i]) {
				return false, nil
			}
		}
	} else {
		return false, errObjectExpected()
	}
	return true, nil
""", """		i := start + 1
		for i < end && space(json[i]) {
			i++
		}
		return i >= end, nil
	}
	return false, errObjectExpected()
"""))
r("formattype-switch", ("utils.go", """	if isBool(val) {
		return val
	}
	if isNumber(val) && (isInt(val) || isFloat(val)) {
		return val
	}
	if val == "null" {
		return val
	}
	start := val[0]
	end := val[len(val)-1]
	// if its starts with `"` and ends with `"`  return it self
	if start == 34 && end == 34 {
		return val
	}
	// if its starts with `[` and ends with `]` return it self
	if start == 91 && end == 93 {
		return val
	}
	// if its starts with `{` and ends with `}` return it self
	if start == 123 && end == 125 {
		return val
	}
	return `"` + val + `"`
""", """	first, last := val[0], val[len(val)-1]
	switch {
	case val == "null", isBool(val):
		return val
	case isNumber(val) && (isInt(val) || isFloat(val)):
		return val
	case first == '"' && last == '"', first == '[' && last == ']', first == '{' && last == '}':
		return val
	}
	return `"` + val + `"`
"""))
r("cleanvalue-string", ("utils.go", re.compile(r"func cleanValue\(.*?\n\}\n", re.S), """func cleanValue(str []byte) []byte {
	start, end := 0, len(str)
	for start < end-1 && space(str[start]) {
		start++
	}
	for end > start+1 && space(str[end-1]) {
		end--
	}
	if end-start > 1 && str[start] == '"' && str[end-1] == '"' {
		start, end = start+1, end-1
	}
	return str[start:end]
}
"""))
r("tabs-append", ("utils.go", re.compile(r"func createTabs\(.*?\n\}\n", re.S), """func createTabs(n int) []byte {
	var res []byte
	for i := 0; i < n; i++ {
		res = append(res, '\\t')
	}
	return res
}
"""))
r("isnumber-digits", ("utils.go", """	start := i
	for i < len(val) && digit(val[i]) {
		i++
	}
	if i == start || (val[start] == '0' && i-start > 1) {
		return false
	}
""", """	if i >= len(val) || !digit(val[i]) {
		return false
	}
	if val[i] == '0' {
		i++
		if i < len(val) && digit(val[i]) {
			return false
		}
	} else {
		for i < len(val) && digit(val[i]) {
			i++
		}
	}
	var start int
"""))
r("iskind-core", ("inter_type.go", """	state, _, err := typeControlCore(json, []byte{91, 123}, false, path...)
	if err != nil {
		return false, err
	}
	return state, nil
""", """	state, start, err := typeControlCore(json, []byte{91, 123}, false, path...)
	if err != nil || start < 0 {
		return false, err
	}
	return state, err
"""))
r("scheme-has", ("make.go", """	for i := 0; i < len(keys); i++ {
		has := false
		key := keys[i]
		for j := 0; j < len(s.keys); j++ {
			if key == s.keys[j] {
				has = true
				break
			}
		}
		if !has {
			return false
		}
	}
	return true
""", """	for _, key := range keys {
		if !s.has(key) {
			return false
		}
	}
	return true
"""), ("make.go", """	for _, k := range s.keys {
		if k == key {
			return false
		}
	}
	s.keys = append(s.keys, key)
	return true
}
""", """	if s.has(key) {
		return false
	}
	s.keys = append(s.keys, key)
	return true
}

func (s *Scheme) has(key string) bool {
	for _, k := range s.keys {
		if k == key {
			return true
		}
	}
	return false
}
"""))
r("scheme-remove-len", ("make.go", """	newKeys := make([]string, 0, len(s.keys))
	result := false
	for _, k := range s.keys {
		if k != key {
			newKeys = append(newKeys, k)
		} else {
			result = true
		}
	}
	s.keys = newKeys
	return result
""", """	kept := make([]string, 0, len(s.keys))
	for _, k := range s.keys {
		if k == key {
			continue
		}
		kept = append(kept, k)
	}
	removed := len(kept) != len(s.keys)
	s.keys = kept
	return removed
"""))
r("make-pair-helper", ("make.go", """		js = append(js, 34)
		js = append(js, []byte(k)...)
		js = append(js, 34)
		js = append(js, 58)
		js = append(js, []byte(formatType(values[i]))...)
		js = append(js, 44)
""", """		js = appendPair(js, k, formatType(values[i]))
"""), ("make.go", """		js = append(js, 34)
		js = append(js, []byte(k)...)
		js = append(js, 34)
		js = append(js, 58)
		js = append(js, []byte(formatType(fmt.Sprintf("%v", values[i])))...)
		js = append(js, 44)
""", """		js = appendPair(js, k, formatType(fmt.Sprint(values[i])))
"""), ("make.go", "func MakeJsonWithMap(", """func appendPair(js []byte, key, value string) []byte {
	js = append(js, '"')
	js = append(js, key...)
	js = append(js, '"', ':')
	js = append(js, value...)
	return append(js, ',')
}

func MakeJsonWithMap("""))
r("make-comma-first", ("make.go", """	for _, v := range values {
		js = append(js, []byte(strconv.Itoa(v))...)
		js = append(js, 44)
	}
	js = js[:len(js)-1]
	js = append(js, 93)
""", """	for i, v := range values {
		if i > 0 {
			js = append(js, ',')
		}
		js = strconv.AppendInt(js, int64(v), 10)
	}
	js = append(js, ']')
"""))
r("walk-leaf-helper", ("walk.go", """		key := ""
		if len(path) != 0 {
			key = path[len(path)-1]
		}
		val, err := Get(json, path...)
		if err != nil {
			return false, err
		}
		return callback(key, val, path)
	}
	if err != nil {
		return false, err
	}
	return keepGoing, nil
}
""", """		return leaf(json, path, callback)
	}
	if err != nil {
		return false, err
	}
	return keepGoing, nil
}

func leaf(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) (bool, error) {
	val, err := Get(json, path...)
	if err != nil {
		return false, err
	}
	if len(path) == 0 {
		return callback("", val, path)
	}
	return callback(path[len(path)-1], val, path)
}
"""))
r("length-empty-blank", ("others.go", """	if length == 0 {
		for i := start + 1; i < end-1; i++ {
			if !space(json[i]) {
				return 1, nil
			}
		}
		return 0, nil
	}
	return length + 1, nil
""", """	if length != 0 {
		return length + 1, nil
	}
	for end--; end > start+1; end-- {
		if !space(json[end-1]) {
			return 1, nil
		}
	}
	return 0, nil
"""))
r("getstartend-trim", ("utils.go", """		for start < len(json) && space(json[start]) {
			start++
		}
		if start >= len(json) {
			return -1, -1, errBadJSON(start)
		}
		end = lenj - 1
		for end > start && space(json[end]) {
			end--
		}
		// end is exclusive, as in core
		end++
""", """		for start < lenj && space(json[start]) {
			start++
		}
		if start == lenj {
			return -1, -1, errBadJSON(start)
		}
		end = lenj
		for space(json[end-1]) {
			end--
		}
"""))
r("noop-statements", *[(f, re.compile(r"^(func [^\n]*\{)\n", re.M), r"\1\n\t_ = 0\n", -1) for f in ["inter_core.go", "inter_add.go", "inter_set.go", "inter_delete.go", "inter_get.go", "inter_iter.go", "inter_type.go", "parse_core.go", "parse_add.go", "parse_set.go", "parse_delete.go", "parse_get.go", "parse_utils.go", "others.go", "utils.go", "walk.go", "sequence.go"]])
r("parser-edit-reorder", ("parse_utils.go", "func (p *Parser) JSON() []byte {", "// JSON shows the text.\nfunc (p *Parser) JSON() []byte {")) if False else None

def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
def one(name, ids, tests):
    w = tempfile.mkdtemp(prefix="refac"); rp = os.path.join(w, "repo")
    try:
        sh(f"cp -a /repo {rp}", "/")
        for e in R[name]:
            p = os.path.join(rp, e[0]); s = open(p).read(); want = e[3] if len(e) > 3 else 1
            if hasattr(e[1], "sub"):
                s2, n = e[1].subn(lambda m: m.expand(e[2]) if "\\1" in e[2] else e[2], s)
            else:
                n = s.count(e[1]); s2 = s.replace(e[1], e[2])
            if want >= 0 and n != want: return f"{name}: EDIT of {e[0]} matches {n}"
            open(p, "w").write(s2)
        b = sh("go build ./... && go vet .", rp)
        if b.returncode: return f"{name}: BUILD {b.stderr[:600]}"
        out = []
        if tests:
            base = json.load(open("/opt/vp/BASELINE.json"))
            x = sh("GOFLAGS=-mod=mod go test -json -vet=off -count=1 ./... 2>&1", rp); failed = set()
            for l in x.stdout.splitlines():
                try: ev = json.loads(l)
                except Exception: continue
                if ev.get("Action") == "fail" and ev.get("Test"): failed.add(ev["Package"] + "/" + ev["Test"])
            failed &= set(base["stable"])
            if failed: out.append(f"TESTS {sorted(failed)}")
        for i in ids:
            v = os.path.join(w, "v"); os.makedirs(v, exist_ok=True)
            sh(f"cp {ROOT}/known_findings.txt {v}/", "/")
            c = sh(f"timeout 900 {ROOT}/.build/jinverify -repo {rp} -verif {v} -check {i}", "/")
            if c.returncode: out.append(f"{i} rc={c.returncode}\n" + "\n".join("      " + l[:260] for l in c.stdout.splitlines()[:8]))
        return f"{name}: " + ("quiet" if not out else "\n    ".join(out))
    finally: shutil.rmtree(w)
if __name__ == "__main__":
    a = sys.argv[1:]; tests = "-t" in a; a = [x for x in a if x != "-t"]
    ids = None
    if "-c" in a: i = a.index("-c"); ids = a[i+1].split(","); del a[i:i+2]
    if not ids: ids = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
    R = {k: v for k, v in R.items() if v}
    sh("bash ./setup.sh", ROOT)
    for n in (a or list(R)): print(one(n, ids, tests), flush=True)
