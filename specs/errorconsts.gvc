package internal/errorconsts

func NewIntermediateWriteErrorData(bytesWritten, expectedToWrite) (r)
  ensures iff(r.PartialWrite, bytesWritten != 0 && bytesWritten != expectedToWrite)
  ensures r.BytesWritten == bytesWritten
  ensures r.IoError
  ensures fresh(r)
  modifies nothing
  property I01
func NewIntermediateReadErrorData(bytesRead, expectedToRead, actuallyRead) (r)
  ensures iff(r.PartialRead, bytesRead != 0 && bytesRead != expectedToRead)
  ensures r.BytesRead == bytesRead
  ensures r.IoError
  ensures same(r.ActuallyRead, actuallyRead)
  ensures fresh(r)
  modifies nothing
  property I01
lemma noAttempt()
  ensures !NoReadAttempt.PartialRead && NoReadAttempt.BytesRead == 0 && isnil(NoReadAttempt.ActuallyRead) && !NoReadAttempt.IoError
  ensures !NoWriteAttempt.PartialWrite && NoWriteAttempt.BytesWritten == 0 && !NoWriteAttempt.IoError
  property I01
