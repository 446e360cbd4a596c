module verifharness

go 1.26.5

require github.com/matehaxor03/holistic_json v0.0.0

require github.com/matehaxor03/holistic_common v0.0.73

replace github.com/matehaxor03/holistic_json => /repo
