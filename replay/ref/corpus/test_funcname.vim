function _F()
endfunction

function s:SID()
endfunction

function <SID>SID()
endfunction
