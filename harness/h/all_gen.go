package h

// All is written by tools/gen_registry.py.
var All = map[string]func(){
	"C01_Braces": C01_Braces,
	"C01_Context": C01_Context,
	"C01_Framed": C01_Framed,
	"C01_Great": C01_Great,
	"C01_Large": C01_Large,
	"C01_Numbers": C01_Numbers,
	"C01_Short": C01_Short,
	"C01_Syntax": C01_Syntax,
	"C02_Braces": C02_Braces,
	"C02_Brackets": C02_Brackets,
	"C02_Context": C02_Context,
	"C02_Deep": C02_Deep,
	"C02_Deeper": C02_Deeper,
	"C02_Enclosed": C02_Enclosed,
	"C02_Framed": C02_Framed,
	"C02_Notations": C02_Notations,
	"C02_Quotes": C02_Quotes,
	"C02_Scalars": C02_Scalars,
	"C02_Short": C02_Short,
	"C02_Syntax": C02_Syntax,
	"C03_Among": C03_Among,
	"C03_Context": C03_Context,
	"C03_Free": C03_Free,
	"C03_Fused": C03_Fused,
	"C03_GoodContext": C03_GoodContext,
	"C03_Number": C03_Number,
	"C03_Places": C03_Places,
	"C03_Sequence": C03_Sequence,
	"C03_Words": C03_Words,
	"C04_Alike": C04_Alike,
	"C04_All": C04_All,
	"C04_Context": C04_Context,
	"C04_Depth": C04_Depth,
	"C04_Long": C04_Long,
	"C04_ManyZeros": C04_ManyZeros,
	"C04_Neighbours": C04_Neighbours,
	"C04_Places": C04_Places,
	"C04_Zeros": C04_Zeros,
	"C05_Alike": C05_Alike,
	"C05_Context": C05_Context,
	"C05_Escapes": C05_Escapes,
	"C05_Frames": C05_Frames,
	"C05_Free": C05_Free,
	"C05_Letters": C05_Letters,
	"C05_Long": C05_Long,
	"C05_LongEscapes": C05_LongEscapes,
	"C05_ManyEscapes": C05_ManyEscapes,
	"C05_Mixed": C05_Mixed,
	"C05_Several": C05_Several,
	"C05_Surrogates": C05_Surrogates,
	"C05_Three": C05_Three,
	"C05_Unicode": C05_Unicode,
	"C05_Words": C05_Words,
	"C06_After": C06_After,
	"C06_Arrays": C06_Arrays,
	"C06_Context": C06_Context,
	"C06_Deep": C06_Deep,
	"C06_Deeper": C06_Deeper,
	"C06_Great": C06_Great,
	"C06_Members": C06_Members,
	"C06_Place": C06_Place,
	"C06_Repeated": C06_Repeated,
	"C06_RepeatedAgain": C06_RepeatedAgain,
	"C06_RepeatedOften": C06_RepeatedOften,
	"C06_Shapes": C06_Shapes,
	"C06_Structure": C06_Structure,
	"C06_Wide": C06_Wide,
	"C07_Any": C07_Any,
	"C07_Context": C07_Context,
	"C07_Every": C07_Every,
	"C07_Lengths": C07_Lengths,
	"C07_Literals": C07_Literals,
	"C07_LongRuns": C07_LongRuns,
	"C07_One": C07_One,
	"C07_Scalars": C07_Scalars,
	"C07_Shapes": C07_Shapes,
	"C07_Two": C07_Two,
	"C08_Context": C08_Context,
	"C08_Exponent": C08_Exponent,
	"C08_Limits": C08_Limits,
	"C08_Long": C08_Long,
	"C08_Near": C08_Near,
	"C08_Plain": C08_Plain,
	"C08_Several": C08_Several,
	"C08_Zeros": C08_Zeros,
	"C09_Alike": C09_Alike,
	"C09_Backslashes": C09_Backslashes,
	"C09_Ends": C09_Ends,
	"C09_Free": C09_Free,
	"C09_Key": C09_Key,
	"C09_Long": C09_Long,
	"C09_Near": C09_Near,
	"C09_Pair": C09_Pair,
	"C09_Positions": C09_Positions,
	"C09_Special": C09_Special,
	"C09_Words": C09_Words,
	"C10_AnyFloat64": C10_AnyFloat64,
	"C10_Float32": C10_Float32,
	"C10_Float32Values": C10_Float32Values,
	"C10_Float64": C10_Float64,
	"C10_Integers": C10_Integers,
	"C10_Together": C10_Together,
	"C10_Words": C10_Words,
	"C11_Deep": C11_Deep,
	"C11_Great": C11_Great,
	"C11_Keys": C11_Keys,
	"C11_More": C11_More,
	"C11_Parsed": C11_Parsed,
	"C11_Same": C11_Same,
	"C11_Scalars": C11_Scalars,
	"C11_Shapes": C11_Shapes,
	"C11_Symbolic": C11_Symbolic,
	"C11_Wide": C11_Wide,
	"C12_Array": C12_Array,
	"C12_ErrorTypes": C12_ErrorTypes,
	"C12_Errors": C12_Errors,
	"C12_Extremes": C12_Extremes,
	"C12_Float32": C12_Float32,
	"C12_Float64": C12_Float64,
	"C12_Foreign": C12_Foreign,
	"C12_Great": C12_Great,
	"C12_ManyErrors": C12_ManyErrors,
	"C12_Nils": C12_Nils,
	"C12_Scalars": C12_Scalars,
	"C12_Several": C12_Several,
	"C12_SeveralWide": C12_SeveralWide,
	"C12_Shapes": C12_Shapes,
	"C12_Special": C12_Special,
	"C12_Strings": C12_Strings,
	"C13_Alike": C13_Alike,
	"C13_Array": C13_Array,
	"C13_Changed": C13_Changed,
	"C13_Great": C13_Great,
	"C13_Held": C13_Held,
	"C13_Order": C13_Order,
	"C13_Rewritten": C13_Rewritten,
	"C13_RewrittenLong": C13_RewrittenLong,
	"C13_Scalars": C13_Scalars,
	"C13_Shapes": C13_Shapes,
	"C13_Strings": C13_Strings,
	"C13_Wide": C13_Wide,
	"C14_Array": C14_Array,
	"C14_Changing": C14_Changing,
	"C14_Map": C14_Map,
	"C14_Parsed": C14_Parsed,
	"C14_Pointer": C14_Pointer,
	"C14_Set": C14_Set,
	"C14_Twice": C14_Twice,
	"C14_Value": C14_Value,
	"C15_Changing": C15_Changing,
	"C15_Edges": C15_Edges,
	"C15_Float32": C15_Float32,
	"C15_Float64": C15_Float64,
	"C15_Integers": C15_Integers,
	"C15_Parsed": C15_Parsed,
	"C15_Pointer": C15_Pointer,
	"C15_Values": C15_Values,
	"C16_Changing": C16_Changing,
	"C16_Containers": C16_Containers,
	"C16_Digits": C16_Digits,
	"C16_Limits": C16_Limits,
	"C16_Map": C16_Map,
	"C16_Null": C16_Null,
	"C16_Parsed": C16_Parsed,
	"C16_Set": C16_Set,
	"C16_Texts": C16_Texts,
	"C16_Times": C16_Times,
	"C16_Value": C16_Value,
	"C17_CallArray": C17_CallArray,
	"C17_CallMap": C17_CallMap,
	"C17_CallValue": C17_CallValue,
	"C17_Emptied": C17_Emptied,
	"C17_Index": C17_Index,
	"C17_IndexText": C17_IndexText,
	"C17_NilElements": C17_NilElements,
	"C17_NilMembers": C17_NilMembers,
	"C17_NilPointers": C17_NilPointers,
	"C17_Others": C17_Others,
	"C17_Scalars": C17_Scalars,
	"C17_Strings": C17_Strings,
	"C18_Absent": C18_Absent,
	"C18_Changing": C18_Changing,
	"C18_Containers": C18_Containers,
	"C18_Equal": C18_Equal,
	"C18_Large": C18_Large,
	"C18_Near": C18_Near,
	"C18_Objects": C18_Objects,
	"C18_Others": C18_Others,
	"C18_Parsed": C18_Parsed,
	"C18_Replaced": C18_Replaced,
	"C18_Setters": C18_Setters,
	"C18_Words": C18_Words,
	"C19_Alike": C19_Alike,
	"C19_AnyKeys": C19_AnyKeys,
	"C19_Case": C19_Case,
	"C19_Drained": C19_Drained,
	"C19_Emptied": C19_Emptied,
	"C19_History": C19_History,
	"C19_Kinds": C19_Kinds,
	"C19_LongHistory": C19_LongHistory,
	"C19_LongKeys": C19_LongKeys,
	"C19_Named": C19_Named,
	"C19_Nested": C19_Nested,
	"C19_Nils": C19_Nils,
	"C19_Origins": C19_Origins,
	"C19_Periodic": C19_Periodic,
	"C19_Prefixes": C19_Prefixes,
	"C19_Setters": C19_Setters,
	"C19_VeryWide": C19_VeryWide,
	"C19_Wide": C19_Wide,
	"C20_Appends": C20_Appends,
	"C20_Drained": C20_Drained,
	"C20_Filled": C20_Filled,
	"C20_Great": C20_Great,
	"C20_History": C20_History,
	"C20_Index": C20_Index,
	"C20_Nested": C20_Nested,
	"C20_Nils": C20_Nils,
	"C20_Nothing": C20_Nothing,
	"C20_Origins": C20_Origins,
	"C20_Periodic": C20_Periodic,
	"C20_Same": C20_Same,
	"C20_VeryWide": C20_VeryWide,
	"C20_Wide": C20_Wide,
	"C21_AfterHistory": C21_AfterHistory,
	"C21_Again": C21_Again,
	"C21_Array": C21_Array,
	"C21_Both": C21_Both,
	"C21_Deep": C21_Deep,
	"C21_Errors": C21_Errors,
	"C21_EveryPointer": C21_EveryPointer,
	"C21_Far": C21_Far,
	"C21_FarPointers": C21_FarPointers,
	"C21_Great": C21_Great,
	"C21_Parsed": C21_Parsed,
	"C21_Pointers": C21_Pointers,
	"C21_Scalars": C21_Scalars,
	"C21_Shapes": C21_Shapes,
	"C21_Shared": C21_Shared,
	"C21_TextLists": C21_TextLists,
	"C21_Value": C21_Value,
	"C21_Wide": C21_Wide,
	"C22_Changing": C22_Changing,
	"C22_Empty": C22_Empty,
	"C22_Index": C22_Index,
	"C22_Integers": C22_Integers,
	"C22_Lists": C22_Lists,
	"C22_Long": C22_Long,
	"C22_Nulls": C22_Nulls,
	"C22_Parsed": C22_Parsed,
	"C22_Same": C22_Same,
	"C22_Texts": C22_Texts,
	"C22_VeryLong": C22_VeryLong,
	"C22_Words": C22_Words,
	"C23_Again": C23_Again,
	"C23_Containers": C23_Containers,
	"C23_Keys": C23_Keys,
	"C23_Lists": C23_Lists,
	"C23_Nothing": C23_Nothing,
	"C23_Others": C23_Others,
	"C23_Parsed": C23_Parsed,
	"C23_Pointers": C23_Pointers,
	"C23_ReadBack": C23_ReadBack,
	"C23_Runes": C23_Runes,
	"C23_Scalars": C23_Scalars,
	"C23_Times": C23_Times,
	"C23_Unlike": C23_Unlike,
	"C24_Build": C24_Build,
	"C24_Elements": C24_Elements,
	"C24_LargeAgain": C24_LargeAgain,
	"C24_LargeTwins": C24_LargeTwins,
	"C24_Literals": C24_Literals,
	"C24_MapTurns": C24_MapTurns,
	"C24_Names": C24_Names,
	"C24_New": C24_New,
	"C24_Numbers": C24_Numbers,
	"C24_Others": C24_Others,
	"C24_Parse": C24_Parse,
	"C24_Read": C24_Read,
	"C24_Refilled": C24_Refilled,
	"C24_Rounds": C24_Rounds,
	"C24_SameInput": C24_SameInput,
	"C24_Turns": C24_Turns,
	"C24_Twins": C24_Twins,
	"C24_Within": C24_Within,
	"C25_Array": C25_Array,
	"C25_Identity": C25_Identity,
	"C25_Independent": C25_Independent,
	"C25_Live": C25_Live,
	"C25_Long": C25_Long,
	"C25_Map": C25_Map,
	"C25_MapText": C25_MapText,
	"C25_Sizes": C25_Sizes,
	"C25_Then": C25_Then,
	"C26_Any": C26_Any,
	"C26_Bool": C26_Bool,
	"C26_BoolTexts": C26_BoolTexts,
	"C26_Changing": C26_Changing,
	"C26_Digits": C26_Digits,
	"C26_Fronts": C26_Fronts,
	"C26_Held": C26_Held,
	"C26_List": C26_List,
	"C26_Long": C26_Long,
	"C26_Parsed": C26_Parsed,
	"C26_Strange": C26_Strange,
	"C26_Zeros": C26_Zeros,
	"C27_Agrees": C27_Agrees,
	"C27_Back": C27_Back,
	"C27_Bool": C27_Bool,
	"C27_Changing": C27_Changing,
	"C27_Integers": C27_Integers,
	"C27_Limits": C27_Limits,
	"C27_Nested": C27_Nested,
	"C27_Parsed": C27_Parsed,
	"C27_String": C27_String,
	"C27_Strings": C27_Strings,
	"C28_Again": C28_Again,
	"C28_Any": C28_Any,
	"C28_Changing": C28_Changing,
	"C28_Characters": C28_Characters,
	"C28_Far": C28_Far,
	"C28_Held": C28_Held,
	"C28_Independent": C28_Independent,
	"C28_Lengths": C28_Lengths,
	"C28_Long": C28_Long,
	"C28_Parsed": C28_Parsed,
	"C28_Wide": C28_Wide,
	"C29_Error": C29_Error,
	"C29_Errors": C29_Errors,
	"C29_Func": C29_Func,
	"C29_Many": C29_Many,
	"C29_Messages": C29_Messages,
	"C29_NilAmong": C29_NilAmong,
	"C29_Texts": C29_Texts,
	"C29_Time": C29_Time,
	"C29_TimeCloned": C29_TimeCloned,
	"C29_Times": C29_Times,
	"C29_Types": C29_Types,
	"C29_Wrapped": C29_Wrapped,
	"C30_Array": C30_Array,
	"C30_Built": C30_Built,
	"C30_Changed": C30_Changed,
	"C30_Cloned": C30_Cloned,
	"C30_Large": C30_Large,
	"C30_Long": C30_Long,
	"C30_Map": C30_Map,
	"C30_Parse": C30_Parse,
	"C30_Parsed": C30_Parsed,
	"C30_Readers": C30_Readers,
	"C30_Separate": C30_Separate,
	"C30_Shrunk": C30_Shrunk,
	"C30_Spare": C30_Spare,
	"C30_Value": C30_Value,
	"C31_Alike": C31_Alike,
	"C31_Any": C31_Any,
	"C31_Changing": C31_Changing,
	"C31_Long": C31_Long,
	"C31_Others": C31_Others,
	"C31_Parsed": C31_Parsed,
	"C31_Scalars": C31_Scalars,
	"C32_KeysChanged": C32_KeysChanged,
	"C32_KeysStay": C32_KeysStay,
	"C32_Lists": C32_Lists,
	"C32_ListsStay": C32_ListsStay,
	"C32_Loop": C32_Loop,
	"C32_Twice": C32_Twice,
	"C33_Held": C33_Held,
	"C33_Pairs": C33_Pairs,
	"C33_Pointer": C33_Pointer,
	"C33_Rounds": C33_Rounds,
	"C33_Scalars": C33_Scalars,
	"C33_Two": C33_Two,
	"C34_Built": C34_Built,
	"C34_Cloned": C34_Cloned,
	"C34_Deep": C34_Deep,
	"C34_Handles": C34_Handles,
	"C34_Parsed": C34_Parsed,
	"C34_Replaced": C34_Replaced,
	"C34_Shared": C34_Shared,
	"C34_Stored": C34_Stored,
	"C34_Taken": C34_Taken,
	"C35_Clock": C35_Clock,
	"C35_Date": C35_Date,
	"C35_Fraction": C35_Fraction,
	"C35_NoTime": C35_NoTime,
	"C35_Read": C35_Read,
	"C35_Short": C35_Short,
	"C35_Spoiled": C35_Spoiled,
	"C35_Value": C35_Value,
	"C35_Zone": C35_Zone,
	"C36_Containers": C36_Containers,
	"C36_Decimals": C36_Decimals,
	"C36_Great": C36_Great,
	"C36_Nothing": C36_Nothing,
	"C36_Others": C36_Others,
	"C36_Scalars": C36_Scalars,
	"C36_Several": C36_Several,
	"C37_Any": C37_Any,
	"C37_Objects": C37_Objects,
	"C37_Scalars": C37_Scalars,
	"C37_Values": C37_Values,
}
