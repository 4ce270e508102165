module mutgen

go 1.19
