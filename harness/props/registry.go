// Code generated by gen.sh. DO NOT EDIT.

package props

// All maps harness names to functions.
var All = map[string]func(){
	"C01_Arrays":         C01_Arrays,
	"C01_Custom":         C01_Custom,
	"C01_CustomByte":     C01_CustomByte,
	"C01_CustomVar":      C01_CustomVar,
	"C01_Ints":           C01_Ints,
	"C01_Keeps":          C01_Keeps,
	"C01_Lengths":        C01_Lengths,
	"C01_LongSlices":     C01_LongSlices,
	"C01_Named":          C01_Named,
	"C01_Nested":         C01_Nested,
	"C01_Optional":       C01_Optional,
	"C01_Optional2":      C01_Optional2,
	"C01_Pointers":       C01_Pointers,
	"C01_Reuse":          C01_Reuse,
	"C01_Staking":        C01_Staking,
	"C01_Strings":        C01_Strings,
	"C01_Toplevel":       C01_Toplevel,
	"C02_Arrays":         C02_Arrays,
	"C02_Custom":         C02_Custom,
	"C02_CustomByte":     C02_CustomByte,
	"C02_CustomVar":      C02_CustomVar,
	"C02_Ints":           C02_Ints,
	"C02_IntsShort":      C02_IntsShort,
	"C02_Large":          C02_Large,
	"C02_Lengths":        C02_Lengths,
	"C02_Named":          C02_Named,
	"C02_Nested":         C02_Nested,
	"C02_Optional":       C02_Optional,
	"C02_Optional2":      C02_Optional2,
	"C02_Pointers":       C02_Pointers,
	"C02_Staking":        C02_Staking,
	"C02_Strings":        C02_Strings,
	"C02_Toplevel":       C02_Toplevel,
	"C03_Accounts":       C03_Accounts,
	"C03_Arrays":         C03_Arrays,
	"C03_BitSet":         C03_BitSet,
	"C03_Block":          C03_Block,
	"C03_Body":           C03_Body,
	"C03_Combos":         C03_Combos,
	"C03_Combos2":        C03_Combos2,
	"C03_Custom":         C03_Custom,
	"C03_CustomByte":     C03_CustomByte,
	"C03_CustomVar":      C03_CustomVar,
	"C03_Hash":           C03_Hash,
	"C03_Header":         C03_Header,
	"C03_Interlink":      C03_Interlink,
	"C03_Ints":           C03_Ints,
	"C03_Lengths":        C03_Lengths,
	"C03_Long":           C03_Long,
	"C03_Loose":          C03_Loose,
	"C03_Merkle":         C03_Merkle,
	"C03_Messages":       C03_Messages,
	"C03_Named":          C03_Named,
	"C03_Nested":         C03_Nested,
	"C03_Net":            C03_Net,
	"C03_Optional":       C03_Optional,
	"C03_Optional2":      C03_Optional2,
	"C03_Peer":           C03_Peer,
	"C03_Pointers":       C03_Pointers,
	"C03_Proof":          C03_Proof,
	"C03_Pruned":         C03_Pruned,
	"C03_Staking":        C03_Staking,
	"C03_Strings":        C03_Strings,
	"C03_Toplevel":       C03_Toplevel,
	"C03_TxContent":      C03_TxContent,
	"C03_Txs":            C03_Txs,
	"C04_BitSet":         C04_BitSet,
	"C04_BitSetAny":      C04_BitSetAny,
	"C04_Detail":         C04_Detail,
	"C04_IP":             C04_IP,
	"C04_Interlink":      C04_Interlink,
	"C04_MerklePath":     C04_MerklePath,
	"C04_Nil":            C04_Nil,
	"C04_NilPointer":     C04_NilPointer,
	"C04_NoTag":          C04_NoTag,
	"C04_Over16":         C04_Over16,
	"C04_Over8":          C04_Over8,
	"C04_Toplevel":       C04_Toplevel,
	"C04_Unsupported":    C04_Unsupported,
	"C04_Wire":           C04_Wire,
	"C05_BitSetAny":      C05_BitSetAny,
	"C05_Block":          C05_Block,
	"C05_BlockAny":       C05_BlockAny,
	"C05_Body":           C05_Body,
	"C05_BodyAny":        C05_BodyAny,
	"C05_BodyLong":       C05_BodyLong,
	"C05_Header":         C05_Header,
	"C05_HeaderAny":      C05_HeaderAny,
	"C05_Interlink":      C05_Interlink,
	"C05_InterlinkAny":   C05_InterlinkAny,
	"C05_InterlinkFull":  C05_InterlinkFull,
	"C05_InterlinkMany":  C05_InterlinkMany,
	"C05_InterlinkTiny":  C05_InterlinkTiny,
	"C05_Keeps":          C05_Keeps,
	"C05_Previous":       C05_Previous,
	"C06_Any":            C06_Any,
	"C06_AnyBasic":       C06_AnyBasic,
	"C06_Basic":          C06_Basic,
	"C06_Content":        C06_Content,
	"C06_Extended":       C06_Extended,
	"C06_Keeps":          C06_Keeps,
	"C06_Long":           C06_Long,
	"C06_Methods":        C06_Methods,
	"C06_Nested":         C06_Nested,
	"C06_Wrapped":        C06_Wrapped,
	"C07_Any":            C07_Any,
	"C07_Basic":          C07_Basic,
	"C07_Equal":          C07_Equal,
	"C07_HTLC":           C07_HTLC,
	"C07_Hash":           C07_Hash,
	"C07_HashAny":        C07_HashAny,
	"C07_Keeps":          C07_Keeps,
	"C07_Methods":        C07_Methods,
	"C07_Pruned":         C07_Pruned,
	"C07_Vesting":        C07_Vesting,
	"C07_Wrapped":        C07_Wrapped,
	"C08_Arbitrary":      C08_Arbitrary,
	"C08_Empty":          C08_Empty,
	"C08_Fixed":          C08_Fixed,
	"C08_Numbers":        C08_Numbers,
	"C08_RoundTrip":      C08_RoundTrip,
	"C09_IPv4":           C09_IPv4,
	"C09_Keeps":          C09_Keeps,
	"C09_Net":            C09_Net,
	"C09_NetAny":         C09_NetAny,
	"C09_Peer":           C09_Peer,
	"C09_PeerAny":        C09_PeerAny,
	"C09_Protocols":      C09_Protocols,
	"C09_ReuseNet":       C09_ReuseNet,
	"C09_ReusePeer":      C09_ReusePeer,
	"C09_Server":         C09_Server,
	"C09_SrvAny":         C09_SrvAny,
	"C10_Change":         C10_Change,
	"C10_OtherKey":       C10_OtherKey,
	"C10_PeerID":         C10_PeerID,
	"C10_Reference":      C10_Reference,
	"C10_Sign":           C10_Sign,
	"C11_Address":        C11_Address,
	"C11_Binding":        C11_Binding,
	"C11_Decoded":        C11_Decoded,
	"C11_Keeps":          C11_Keeps,
	"C11_Leaf":           C11_Leaf,
	"C11_LongPath":       C11_LongPath,
	"C11_Path":           C11_Path,
	"C11_PathAny":        C11_PathAny,
	"C11_PathLong":       C11_PathLong,
	"C11_Proof":          C11_Proof,
	"C11_ProofAny":       C11_ProofAny,
	"C11_Reuse":          C11_Reuse,
	"C11_Signature":      C11_Signature,
	"C11_Signer":         C11_Signer,
	"C12_Compact":        C12_Compact,
	"C12_Difficulty":     C12_Difficulty,
	"C12_Max":            C12_Max,
	"C12_Order":          C12_Order,
	"C12_PowerOfTwo":     C12_PowerOfTwo,
	"C12_Quotient":       C12_Quotient,
	"C13_Compress":       C13_Compress,
	"C13_CompressNil":    C13_CompressNil,
	"C13_Hex":            C13_Hex,
	"C13_HexKey":         C13_HexKey,
	"C13_Key":            C13_Key,
	"C13_Prefix":         C13_Prefix,
	"C13_PrefixKeys":     C13_PrefixKeys,
	"C13_ToKey":          C13_ToKey,
	"C14_Chain":          C14_Chain,
	"C14_In":             C14_In,
	"C14_Out":            C14_Out,
	"C15_Basic":          C15_Basic,
	"C15_Edge":           C15_Edge,
	"C15_In":             C15_In,
	"C15_Proof":          C15_Proof,
	"C15_Schedule":       C15_Schedule,
	"C15_Small":          C15_Small,
	"C15_Steps":          C15_Steps,
	"C15_View":           C15_View,
	"C16_Basic":          C16_Basic,
	"C16_In":             C16_In,
	"C16_Long":           C16_Long,
	"C16_Proof":          C16_Proof,
	"C16_Same":           C16_Same,
	"C16_View":           C16_View,
	"C17_Basic":          C17_Basic,
	"C17_BasicAccount":   C17_BasicAccount,
	"C17_Data":           C17_Data,
	"C17_Long":           C17_Long,
	"C18_Blocks":         C18_Blocks,
	"C18_Contract":       C18_Contract,
	"C18_Create":         C18_Create,
	"C18_Transfers":      C18_Transfers,
	"C18_Wrap":           C18_Wrap,
	"C19_Again":          C19_Again,
	"C19_Any":            C19_Any,
	"C19_Basic":          C19_Basic,
	"C19_Late":           C19_Late,
	"C19_Shape":          C19_Shape,
	"C20_Basic":          C20_Basic,
	"C20_Field":          C20_Field,
	"C20_Idle":           C20_Idle,
	"C20_Into":           C20_Into,
	"C20_List":           C20_List,
	"C20_Steps":          C20_Steps,
	"C20_Two":            C20_Two,
	"C21_Blocks":         C21_Blocks,
	"C21_Contract":       C21_Contract,
	"C21_Create":         C21_Create,
	"C21_Empty":          C21_Empty,
	"C21_Transfers":      C21_Transfers,
	"C21_Types":          C21_Types,
	"C22_Emptied":        C22_Emptied,
	"C22_One":            C22_One,
	"C22_Own":            C22_Own,
	"C22_Replace":        C22_Replace,
	"C22_Steps":          C22_Steps,
	"C23_Absent":         C23_Absent,
	"C23_Any":            C23_Any,
	"C23_Crowd":          C23_Crowd,
	"C23_Full":           C23_Full,
	"C23_Near":           C23_Near,
	"C23_Steps":          C23_Steps,
	"C23_Value":          C23_Value,
	"C24_Any":            C24_Any,
	"C24_Crowd":          C24_Crowd,
	"C24_Distinct":       C24_Distinct,
	"C24_Empty":          C24_Empty,
	"C24_Full":           C24_Full,
	"C24_Near":           C24_Near,
	"C24_Order":          C24_Order,
	"C24_Steps":          C24_Steps,
	"C25_Deep":           C25_Deep,
	"C25_Discard":        C25_Discard,
	"C25_Mem":            C25_Mem,
	"C25_Merge":          C25_Merge,
	"C25_Ops":            C25_Ops,
	"C25_Tree":           C25_Tree,
	"C26_Backwards":      C26_Backwards,
	"C26_Between":        C26_Between,
	"C26_Constants":      C26_Constants,
	"C26_Formula":        C26_Formula,
	"C26_Split":          C26_Split,
	"C26_Start":          C26_Start,
	"C27_Again":          C27_Again,
	"C27_Any":            C27_Any,
	"C27_Edges":          C27_Edges,
	"C27_Three":          C27_Three,
	"C27_Two":            C27_Two,
	"C28_Injective":      C28_Injective,
	"C28_Pattern":        C28_Pattern,
	"C28_Spaces":         C28_Spaces,
	"C28_Window":         C28_Window,
	"C29_Alphabet":       C29_Alphabet,
	"C29_Bytes":          C29_Bytes,
	"C29_Check":          C29_Check,
	"C29_Length":         C29_Length,
	"C29_Pattern":        C29_Pattern,
	"C29_Replace":        C29_Replace,
	"C30_Basic":          C30_Basic,
	"C30_Change":         C30_Change,
	"C30_ChangeExtended": C30_ChangeExtended,
	"C30_Extended":       C30_Extended,
	"C30_Foreign":        C30_Foreign,
	"C30_Generated":      C30_Generated,
	"C30_Repeat":         C30_Repeat,
	"C30_TooLong":        C30_TooLong,
	"C30_Two":            C30_Two,
	"C31_Basic":          C31_Basic,
	"C31_Content":        C31_Content,
	"C31_ContentAny":     C31_ContentAny,
	"C31_Extended":       C31_Extended,
	"C31_Formats":        C31_Formats,
	"C31_Injective":      C31_Injective,
	"C32_Accounts":       C32_Accounts,
	"C32_Block":          C32_Block,
	"C32_Contract":       C32_Contract,
	"C32_Twice":          C32_Twice,
	"C33_Accounts":       C33_Accounts,
	"C33_Again":          C33_Again,
	"C33_All":            C33_All,
	"C33_Block":          C33_Block,
	"C33_Bytes":          C33_Bytes,
	"C33_Embedded":       C33_Embedded,
	"C33_Hash":           C33_Hash,
	"C33_Malformed":      C33_Malformed,
	"C33_Missing":        C33_Missing,
	"C33_Name":           C33_Name,
	"C33_Network":        C33_Network,
	"C33_Seeds":          C33_Seeds,
	"C34_Archive":        C34_Archive,
	"C34_Blocks":         C34_Blocks,
	"C34_Genesis":        C34_Genesis,
	"C34_Order":          C34_Order,
	"C34_Prune":          C34_Prune,
	"C35_Accounts":       C35_Accounts,
	"C35_Addresses":      C35_Addresses,
	"C35_Block":          C35_Block,
	"C35_Errors":         C35_Errors,
	"C35_Messages":       C35_Messages,
	"C35_Nibbles":        C35_Nibbles,
	"C35_Profiles":       C35_Profiles,
	"C35_Shared":         C35_Shared,
	"C35_Signatures":     C35_Signatures,
	"C35_States":         C35_States,
	"C35_Targets":        C35_Targets,
	"C35_Trees":          C35_Trees,
	"C35_Values":         C35_Values,
}
