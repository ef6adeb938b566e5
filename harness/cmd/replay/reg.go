package main

import (
	"verifh/hcfb"
	"verifh/hcommon"
	"verifh/hcross"
	"verifh/hcrypto"
	"verifh/hroot"
	"verifh/hsimple"
	"verifh/htest"
	"verifh/hxls"
	"verifh/hxlsx"
)

var all = map[string]func(){
	"hcfb.CrashBig": hcfb.CrashBig,
	"hcfb.CrashChains": hcfb.CrashChains,
	"hcfb.CrashDIFAT": hcfb.CrashDIFAT,
	"hcfb.CrashDir": hcfb.CrashDir,
	"hcfb.CrashHeader": hcfb.CrashHeader,
	"hcfb.CrashShort": hcfb.CrashShort,
	"hcfb.ReleaseDIFAT": hcfb.ReleaseDIFAT,
	"hcfb.ReleaseHeader": hcfb.ReleaseHeader,
	"hcfb.ReleaseShort": hcfb.ReleaseShort,
	"hcfb.SliceDeep": hcfb.SliceDeep,
	"hcfb.SliceEmpty": hcfb.SliceEmpty,
	"hcfb.SliceOne": hcfb.SliceOne,
	"hcfb.SliceShort": hcfb.SliceShort,
	"hcfb.ValidBig": hcfb.ValidBig,
	"hcfb.ValidDIFAT": hcfb.ValidDIFAT,
	"hcfb.ValidEmbedded": hcfb.ValidEmbedded,
	"hcfb.ValidMini": hcfb.ValidMini,
	"hcfb.ValidNames": hcfb.ValidNames,
	"hcfb.ValidV4": hcfb.ValidV4,
	"hcommon.ApplyAny": hcommon.ApplyAny,
	"hcommon.BuiltinDates": hcommon.BuiltinDates,
	"hcommon.Calendar": hcommon.Calendar,
	"hcommon.CellTexts": hcommon.CellTexts,
	"hcommon.Clock": hcommon.Clock,
	"hcommon.ClockMinutes": hcommon.ClockMinutes,
	"hcommon.CodeBytes": hcommon.CodeBytes,
	"hcommon.CodeSheet": hcommon.CodeSheet,
	"hcommon.Coerce": hcommon.Coerce,
	"hcommon.CompareKinds": hcommon.CompareKinds,
	"hcommon.CompareNumbers": hcommon.CompareNumbers,
	"hcommon.CompareTexts": hcommon.CompareTexts,
	"hcommon.DateCode": hcommon.DateCode,
	"hcommon.Days": hcommon.Days,
	"hcommon.DecimalCells": hcommon.DecimalCells,
	"hcommon.DecimalCode": hcommon.DecimalCode,
	"hcommon.Decimals": hcommon.Decimals,
	"hcommon.Empty": hcommon.Empty,
	"hcommon.Exponents": hcommon.Exponents,
	"hcommon.FracDecimals": hcommon.FracDecimals,
	"hcommon.FracLarge": hcommon.FracLarge,
	"hcommon.FracQuotients": hcommon.FracQuotients,
	"hcommon.FracTiny": hcommon.FracTiny,
	"hcommon.GeneralBools": hcommon.GeneralBools,
	"hcommon.GeneralFloats": hcommon.GeneralFloats,
	"hcommon.GeneralInts": hcommon.GeneralInts,
	"hcommon.GeneralTexts": hcommon.GeneralTexts,
	"hcommon.Grid2": hcommon.Grid2,
	"hcommon.Grid3": hcommon.Grid3,
	"hcommon.Grid4": hcommon.Grid4,
	"hcommon.Known": hcommon.Known,
	"hcommon.Lines": hcommon.Lines,
	"hcommon.Modes": hcommon.Modes,
	"hcommon.Narrower": hcommon.Narrower,
	"hcommon.NewCellInts": hcommon.NewCellInts,
	"hcommon.NewCellOthers": hcommon.NewCellOthers,
	"hcommon.NumberCode": hcommon.NumberCode,
	"hcommon.Order": hcommon.Order,
	"hcommon.OrderEarly": hcommon.OrderEarly,
	"hcommon.ParCodes": hcommon.ParCodes,
	"hcommon.ParFormats": hcommon.ParFormats,
	"hcommon.RawCopy": hcommon.RawCopy,
	"hcommon.Refused": hcommon.Refused,
	"hcommon.Scan": hcommon.Scan,
	"hcommon.SectionCode": hcommon.SectionCode,
	"hcommon.TimeCode": hcommon.TimeCode,
	"hcommon.WholeCell": hcommon.WholeCell,
	"hcommon.WholeCustom": hcommon.WholeCustom,
	"hcommon.WholeFloat": hcommon.WholeFloat,
	"hcommon.WholeInt": hcommon.WholeInt,
	"hcommon.WholeTypes": hcommon.WholeTypes,
	"hcross.Cells": hcross.Cells,
	"hcross.Gaps": hcross.Gaps,
	"hcross.Links": hcross.Links,
	"hcross.Merges": hcross.Merges,
	"hcross.Numbers": hcross.Numbers,
	"hcross.Sheets": hcross.Sheets,
	"hcrypto.DebugWorkbook": hcrypto.DebugWorkbook,
	"hcrypto.DebugWrong": hcrypto.DebugWrong,
	"hcrypto.Long": hcrypto.Long,
	"hcrypto.OtherPassword": hcrypto.OtherPassword,
	"hcrypto.ParWorkbook": hcrypto.ParWorkbook,
	"hcrypto.ParWrong": hcrypto.ParWrong,
	"hcrypto.Reset": hcrypto.Reset,
	"hcrypto.Small": hcrypto.Small,
	"hcrypto.Splits": hcrypto.Splits,
	"hcrypto.Verifier": hcrypto.Verifier,
	"hcrypto.Workbook": hcrypto.Workbook,
	"hcrypto.WrongPassword": hcrypto.WrongPassword,
	"hroot.Again": hroot.Again,
	"hroot.Dispatch": hroot.Dispatch,
	"hroot.Tables": hroot.Tables,
	"hroot.Texts": hroot.Texts,
	"hroot.Workbooks": hroot.Workbooks,
	"hroot.Wrap": hroot.Wrap,
	"hsimple.Absent": hsimple.Absent,
	"hsimple.CSVBytes": hsimple.CSVBytes,
	"hsimple.CSVLong": hsimple.CSVLong,
	"hsimple.CSVPieces": hsimple.CSVPieces,
	"hsimple.CSVQuoted": hsimple.CSVQuoted,
	"hsimple.DebugCSV": hsimple.DebugCSV,
	"hsimple.DebugTSV": hsimple.DebugTSV,
	"hsimple.Iterators": hsimple.Iterators,
	"hsimple.ParCSV": hsimple.ParCSV,
	"hsimple.ParTSV": hsimple.ParTSV,
	"hsimple.ReleaseCSV": hsimple.ReleaseCSV,
	"hsimple.ReleaseLong": hsimple.ReleaseLong,
	"hsimple.ReleaseShapes": hsimple.ReleaseShapes,
	"hsimple.ScanNumber": hsimple.ScanNumber,
	"hsimple.ScanText": hsimple.ScanText,
	"hsimple.ScanWords": hsimple.ScanWords,
	"hsimple.Shapes": hsimple.Shapes,
	"hsimple.TSVBytes": hsimple.TSVBytes,
	"hsimple.TSVLong": hsimple.TSVLong,
	"hsimple.TSVPieces": hsimple.TSVPieces,
	"htest.D1": htest.D1,
	"htest.D2": htest.D2,
	"htest.D3": htest.D3,
	"htest.D4": htest.D4,
	"htest.D5": htest.D5,
	"htest.D6": htest.D6,
	"htest.D7": htest.D7,
	"htest.D8": htest.D8,
	"htest.D9": htest.D9,
	"htest.T1Arith": htest.T1Arith,
	"htest.T2Fail": htest.T2Fail,
	"htest.T3Structs": htest.T3Structs,
	"htest.T4Lib": htest.T4Lib,
	"htest.T5File": htest.T5File,
	"htest.T6Pf": htest.T6Pf,
	"hxls.CellFar": hxls.CellFar,
	"hxls.CellKinds": hxls.CellKinds,
	"hxls.CellLast": hxls.CellLast,
	"hxls.CellPairs": hxls.CellPairs,
	"hxls.CellRow": hxls.CellRow,
	"hxls.CrashByte": hxls.CrashByte,
	"hxls.CrashCut": hxls.CrashCut,
	"hxls.CrashDims": hxls.CrashDims,
	"hxls.CrashEncrypted": hxls.CrashEncrypted,
	"hxls.CrashEncryptedCut": hxls.CrashEncryptedCut,
	"hxls.CrashFilePass": hxls.CrashFilePass,
	"hxls.CrashIndex": hxls.CrashIndex,
	"hxls.CrashLink": hxls.CrashLink,
	"hxls.CrashLinkShort": hxls.CrashLinkShort,
	"hxls.CrashMoniker": hxls.CrashMoniker,
	"hxls.CrashPlaces": hxls.CrashPlaces,
	"hxls.CrashRanges": hxls.CrashRanges,
	"hxls.CrashResult": hxls.CrashResult,
	"hxls.CrashSize": hxls.CrashSize,
	"hxls.CrashString": hxls.CrashString,
	"hxls.CrashStructure": hxls.CrashStructure,
	"hxls.CrashTable": hxls.CrashTable,
	"hxls.CrashType": hxls.CrashType,
	"hxls.DateSystem": hxls.DateSystem,
	"hxls.DateText": hxls.DateText,
	"hxls.DateTwice": hxls.DateTwice,
	"hxls.DebugBroken": hxls.DebugBroken,
	"hxls.DebugByte": hxls.DebugByte,
	"hxls.DebugCut": hxls.DebugCut,
	"hxls.DebugDates": hxls.DebugDates,
	"hxls.DebugErrors": hxls.DebugErrors,
	"hxls.DebugFormulas": hxls.DebugFormulas,
	"hxls.DebugIndex": hxls.DebugIndex,
	"hxls.DebugKinds": hxls.DebugKinds,
	"hxls.DebugLink": hxls.DebugLink,
	"hxls.DebugLinkCut": hxls.DebugLinkCut,
	"hxls.DebugLinks": hxls.DebugLinks,
	"hxls.DebugMerged": hxls.DebugMerged,
	"hxls.DebugNames": hxls.DebugNames,
	"hxls.DebugRecords": hxls.DebugRecords,
	"hxls.DebugResult": hxls.DebugResult,
	"hxls.DebugStyles": hxls.DebugStyles,
	"hxls.DebugTable": hxls.DebugTable,
	"hxls.DebugType": hxls.DebugType,
	"hxls.Empty": hxls.Empty,
	"hxls.Foreign": hxls.Foreign,
	"hxls.FormulaLong": hxls.FormulaLong,
	"hxls.FormulaPairs": hxls.FormulaPairs,
	"hxls.Formulas": hxls.Formulas,
	"hxls.Iterators": hxls.Iterators,
	"hxls.Layout": hxls.Layout,
	"hxls.LinkAny": hxls.LinkAny,
	"hxls.LinkNumber": hxls.LinkNumber,
	"hxls.LinkRange": hxls.LinkRange,
	"hxls.Links": hxls.Links,
	"hxls.Merged": hxls.Merged,
	"hxls.MergedFull": hxls.MergedFull,
	"hxls.MergedMany": hxls.MergedMany,
	"hxls.MergedTwo": hxls.MergedTwo,
	"hxls.Names": hxls.Names,
	"hxls.ParBroken": hxls.ParBroken,
	"hxls.ParByte": hxls.ParByte,
	"hxls.ParCut": hxls.ParCut,
	"hxls.ParDates": hxls.ParDates,
	"hxls.ParErrors": hxls.ParErrors,
	"hxls.ParFormulas": hxls.ParFormulas,
	"hxls.ParIndex": hxls.ParIndex,
	"hxls.ParKinds": hxls.ParKinds,
	"hxls.ParLink": hxls.ParLink,
	"hxls.ParLinkCut": hxls.ParLinkCut,
	"hxls.ParLinks": hxls.ParLinks,
	"hxls.ParMerged": hxls.ParMerged,
	"hxls.ParNames": hxls.ParNames,
	"hxls.ParResult": hxls.ParResult,
	"hxls.ParStyles": hxls.ParStyles,
	"hxls.ParTable": hxls.ParTable,
	"hxls.RKReaders": hxls.RKReaders,
	"hxls.RKText": hxls.RKText,
	"hxls.RKValue": hxls.RKValue,
	"hxls.ReleaseCut": hxls.ReleaseCut,
	"hxls.ReleaseFilePass": hxls.ReleaseFilePass,
	"hxls.ReleaseSize": hxls.ReleaseSize,
	"hxls.Sheets": hxls.Sheets,
	"hxls.Styles": hxls.Styles,
	"hxls.Table": hxls.Table,
	"hxls.TableLast": hxls.TableLast,
	"hxls.TableLong": hxls.TableLong,
	"hxls.TableMany": hxls.TableMany,
	"hxls.Workbooks": hxls.Workbooks,
	"hxlsx.Breaks": hxlsx.Breaks,
	"hxlsx.Columns": hxlsx.Columns,
	"hxlsx.ColumnsFar": hxlsx.ColumnsFar,
	"hxlsx.CrashAttr": hxlsx.CrashAttr,
	"hxlsx.CrashByte": hxlsx.CrashByte,
	"hxlsx.CrashHuge": hxlsx.CrashHuge,
	"hxlsx.CrashParts": hxlsx.CrashParts,
	"hxlsx.CrashRef": hxlsx.CrashRef,
	"hxlsx.CrashRels": hxlsx.CrashRels,
	"hxlsx.CrashStyles": hxlsx.CrashStyles,
	"hxlsx.Cut": hxlsx.Cut,
	"hxlsx.CutFault": hxlsx.CutFault,
	"hxlsx.DateSystem": hxlsx.DateSystem,
	"hxlsx.DebugAttr": hxlsx.DebugAttr,
	"hxlsx.DebugByte": hxlsx.DebugByte,
	"hxlsx.DebugFormat": hxlsx.DebugFormat,
	"hxlsx.DebugLinks": hxlsx.DebugLinks,
	"hxlsx.DebugMerged": hxlsx.DebugMerged,
	"hxlsx.DebugNames": hxlsx.DebugNames,
	"hxlsx.DebugPairs": hxlsx.DebugPairs,
	"hxlsx.DebugParts": hxlsx.DebugParts,
	"hxlsx.DebugRels": hxlsx.DebugRels,
	"hxlsx.DebugRuns": hxlsx.DebugRuns,
	"hxlsx.DebugTexts": hxlsx.DebugTexts,
	"hxlsx.DebugValues": hxlsx.DebugValues,
	"hxlsx.Declared": hxlsx.Declared,
	"hxlsx.Empty": hxlsx.Empty,
	"hxlsx.Escapes": hxlsx.Escapes,
	"hxlsx.Faults": hxlsx.Faults,
	"hxlsx.Follow": hxlsx.Follow,
	"hxlsx.FollowEnd": hxlsx.FollowEnd,
	"hxlsx.Foreign": hxlsx.Foreign,
	"hxlsx.ForeignPart": hxlsx.ForeignPart,
	"hxlsx.Format": hxlsx.Format,
	"hxlsx.Index": hxlsx.Index,
	"hxlsx.Iterators": hxlsx.Iterators,
	"hxlsx.LinkAny": hxlsx.LinkAny,
	"hxlsx.LinkMerged": hxlsx.LinkMerged,
	"hxlsx.Links": hxlsx.Links,
	"hxlsx.Lost": hxlsx.Lost,
	"hxlsx.Merged": hxlsx.Merged,
	"hxlsx.MergedAlone": hxlsx.MergedAlone,
	"hxlsx.MergedTwo": hxlsx.MergedTwo,
	"hxlsx.Names": hxlsx.Names,
	"hxlsx.NoStyle": hxlsx.NoStyle,
	"hxlsx.Orders": hxlsx.Orders,
	"hxlsx.Pairs": hxlsx.Pairs,
	"hxlsx.ParFormat": hxlsx.ParFormat,
	"hxlsx.ParLinks": hxlsx.ParLinks,
	"hxlsx.ParMerged": hxlsx.ParMerged,
	"hxlsx.ParNames": hxlsx.ParNames,
	"hxlsx.ParPairs": hxlsx.ParPairs,
	"hxlsx.ParParts": hxlsx.ParParts,
	"hxlsx.ParRels": hxlsx.ParRels,
	"hxlsx.ParRuns": hxlsx.ParRuns,
	"hxlsx.ParTexts": hxlsx.ParTexts,
	"hxlsx.ParValues": hxlsx.ParValues,
	"hxlsx.Places": hxlsx.Places,
	"hxlsx.ReleaseBreaks": hxlsx.ReleaseBreaks,
	"hxlsx.ReleaseCut": hxlsx.ReleaseCut,
	"hxlsx.ReleaseFaults": hxlsx.ReleaseFaults,
	"hxlsx.ReleaseOther": hxlsx.ReleaseOther,
	"hxlsx.ReleaseParts": hxlsx.ReleaseParts,
	"hxlsx.ReleaseRels": hxlsx.ReleaseRels,
	"hxlsx.Rows": hxlsx.Rows,
	"hxlsx.Runs": hxlsx.Runs,
	"hxlsx.Styles": hxlsx.Styles,
	"hxlsx.Texts": hxlsx.Texts,
	"hxlsx.Values": hxlsx.Values,
	"hxlsx.Workbooks": hxlsx.Workbooks,
	"hxlsx.Wrapped": hxlsx.Wrapped,
}
