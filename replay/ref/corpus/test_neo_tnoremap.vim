tnoremap <Esc> <C-\><C-N>
