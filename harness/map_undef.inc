#undef X
#undef FN
#undef T
#undef NODE
#undef KEYT
#undef KEYBITS
#undef KIND
#undef MINB
#undef OB
#undef VALEQ
#undef KEY
#undef IN
#undef EACH
