module racegen

go 1.19
