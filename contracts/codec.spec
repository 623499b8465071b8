# Encodings of datum keys and values (C01). keyenc and valenc name the encoding of
# given components; check C01 proves that the bytes written are a function of the
# components (so the names are well defined) and that they determine the components.
uf keyenc(int, int, int, int, int, int) int
uf valenc(int, int) int
def keyOf(k) = keyenc(vec(k.Feature), bstr(k.GroupLabel), k.Size1, k.Size2, k.Dim1, k.Dim2)
def valOf(v) = valenc(bstr(v.Label), v.Version)

func data/gencoder.MarshalKey(d) (b, err)
  requires[C12] key given: d != nil
  modifies nothing
  apply *
  home C01
  ensures always succeeds: err == nil
  ensures result is new: fresh(b)
  assume[C02 C03 C05 C06 C07 C14 C15 C16 C18 C19 C20] bytes are the encoding of the components: bstr(b) == keyOf(d)

func data/gencoder.MarshalValue(d) (b, err)
  requires[C12] value given: d != nil
  modifies nothing
  apply *
  home C01
  ensures always succeeds: err == nil
  ensures result is new: fresh(b)
  assume[C02 C03 C05 C06 C07 C14 C15 C16 C18 C19 C20] bytes are the encoding of the components: bstr(b) == valOf(d)
