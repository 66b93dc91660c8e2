// ---- functions of the standard library (assumed)
ext strconv.FormatUint(i, base) (ret)
  ensures len(ret) >= 1 && len(ret) <= 64
