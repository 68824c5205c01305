module ref.local/vp

go 1.14
