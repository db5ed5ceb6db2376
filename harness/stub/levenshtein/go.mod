module github.com/agnivade/levenshtein

go 1.16
