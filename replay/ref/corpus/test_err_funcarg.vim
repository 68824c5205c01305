function Foo(a, b, C, d_e, _f, g_, h0, i1, a:bar)
endfunction
