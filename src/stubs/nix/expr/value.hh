#pragma once
// Stand-in for the Nix library's header. nixd's protocol layer includes it only
// for the numbering of value types, which it keeps in a plain int.
namespace nix {
typedef enum { nThunk, nInt, nFloat, nBool, nString, nPath, nNull, nAttrs, nList, nFunction, nExternal } ValueType;
}
