------------------------------ MODULE TagTable ------------------------------
(* The EXIF tags the library knows: group, number, defined type, written,    *)
(* number of components (0: any).                                            *)
(* Groups: 1 GENERIC, 2 EXIF, 3 INTEROP, 4 GPS. Types by their TIFF code.     *)
Rows == {
  <<1, 256, 4, TRUE, 1>>,  \* ImageWidth
  <<1, 257, 4, TRUE, 1>>,  \* ImageHeight
  <<1, 258, 3, TRUE, 3>>,  \* BitsPerSample
  <<1, 259, 3, TRUE, 1>>,  \* Compression
  <<1, 262, 3, TRUE, 1>>,  \* PhotometricInterpretation
  <<1, 264, 3, TRUE, 1>>,  \* CellWidth
  <<1, 265, 3, TRUE, 1>>,  \* CellHeight
  <<1, 270, 2, TRUE, 0>>,  \* ImageDescription
  <<1, 271, 2, TRUE, 0>>,  \* Make
  <<1, 272, 2, TRUE, 0>>,  \* Model
  <<1, 274, 3, TRUE, 1>>,  \* Orientation
  <<1, 277, 3, TRUE, 1>>,  \* SamplesPerPixel
  <<1, 278, 4, TRUE, 1>>,  \* RowsPerStrip
  <<1, 282, 5, TRUE, 1>>,  \* XResolution
  <<1, 283, 5, TRUE, 1>>,  \* YResolution
  <<1, 284, 3, TRUE, 1>>,  \* PlanarConfiguration
  <<1, 296, 3, TRUE, 1>>,  \* ResolutionUnit
  <<1, 301, 3, TRUE, 3>>,  \* TransferFunction
  <<1, 305, 2, TRUE, 0>>,  \* Software
  <<1, 306, 2, TRUE, 20>>,  \* ModifyDate
  <<1, 315, 2, TRUE, 0>>,  \* Artist
  <<1, 318, 5, TRUE, 2>>,  \* WhitePoint
  <<1, 319, 5, TRUE, 6>>,  \* PrimaryChromaticities
  <<1, 320, 3, TRUE, 0>>,  \* ColorMap
  <<1, 529, 5, TRUE, 3>>,  \* YCbCrCoefficients
  <<1, 530, 3, TRUE, 2>>,  \* YCbCrSubSampling
  <<1, 531, 3, TRUE, 1>>,  \* YCbCrPositioning
  <<1, 532, 5, TRUE, 6>>,  \* ReferenceBlackWhite
  <<1, 33432, 2, TRUE, 0>>,  \* Copyright
  <<1, 34665, 4, FALSE, 1>>,  \* ExifOffset
  <<1, 34853, 4, TRUE, 1>>,  \* GPSInfo
  <<2, 33434, 5, TRUE, 1>>,  \* ExposureTime
  <<2, 33437, 5, TRUE, 1>>,  \* FNumber
  <<2, 34850, 3, TRUE, 1>>,  \* ExposureProgram
  <<2, 34852, 2, TRUE, 0>>,  \* SpectralSensitivity
  <<2, 34855, 3, TRUE, 0>>,  \* ISO
  <<2, 34856, 7, FALSE, 0>>,  \* OECF
  <<2, 34864, 3, TRUE, 1>>,  \* SensitivityType
  <<2, 34865, 4, TRUE, 1>>,  \* StandardOutputSensitivity
  <<2, 34866, 4, TRUE, 1>>,  \* RecommendedExposureIndex
  <<2, 34867, 4, TRUE, 1>>,  \* ISOSpeed
  <<2, 34868, 4, TRUE, 1>>,  \* ISOSpeedLatitudeyyy
  <<2, 34869, 4, TRUE, 1>>,  \* ISOSpeedLatitudezzz
  <<2, 36864, 7, TRUE, 4>>,  \* ExifVersion
  <<2, 36867, 2, TRUE, 20>>,  \* DateTimeOriginal
  <<2, 36868, 2, TRUE, 20>>,  \* CreateDate
  <<2, 36880, 2, TRUE, 0>>,  \* OffsetTime
  <<2, 36881, 2, TRUE, 0>>,  \* OffsetTimeOriginal
  <<2, 36882, 2, TRUE, 0>>,  \* OffsetTimeDigitized
  <<2, 37121, 7, TRUE, 0>>,  \* ComponentsConfiguration
  <<2, 37122, 5, TRUE, 1>>,  \* CompressedBitsPerPixel
  <<2, 37377, 10, TRUE, 1>>,  \* ShutterSpeedValue
  <<2, 37378, 5, TRUE, 1>>,  \* ApertureValue
  <<2, 37379, 10, TRUE, 1>>,  \* BrightnessValue
  <<2, 37380, 10, TRUE, 1>>,  \* ExposureCompensation
  <<2, 37381, 5, TRUE, 1>>,  \* MaxApertureValue
  <<2, 37382, 5, TRUE, 1>>,  \* SubjectDistance
  <<2, 37383, 3, TRUE, 1>>,  \* MeteringMode
  <<2, 37384, 3, TRUE, 1>>,  \* LightSource
  <<2, 37385, 3, TRUE, 1>>,  \* Flash
  <<2, 37386, 5, TRUE, 1>>,  \* FocalLength
  <<2, 37396, 3, TRUE, 4>>,  \* SubjectArea
  <<2, 37500, 7, TRUE, 0>>,  \* MakerNote
  <<2, 37510, 7, TRUE, 0>>,  \* UserComment
  <<2, 37520, 2, TRUE, 0>>,  \* SubSecTime
  <<2, 37521, 2, TRUE, 0>>,  \* SubSecTimeOriginal
  <<2, 37522, 2, TRUE, 0>>,  \* SubSecTimeDigitized
  <<2, 37888, 10, TRUE, 1>>,  \* AmbientTemperature
  <<2, 37889, 5, TRUE, 1>>,  \* Humidity
  <<2, 37890, 5, TRUE, 1>>,  \* Pressure
  <<2, 37891, 10, TRUE, 1>>,  \* WaterDepth
  <<2, 37892, 5, TRUE, 1>>,  \* Acceleration
  <<2, 37893, 10, TRUE, 1>>,  \* CameraElevationAngle
  <<2, 40960, 7, TRUE, 4>>,  \* FlashpixVersion
  <<2, 40961, 3, TRUE, 1>>,  \* ColorSpace
  <<2, 40962, 4, TRUE, 1>>,  \* ExifImageWidth
  <<2, 40963, 4, TRUE, 1>>,  \* ExifImageHeight
  <<2, 40964, 2, TRUE, 0>>,  \* RelatedSoundFile
  <<2, 40965, 4, TRUE, 1>>,  \* InteropOffset
  <<2, 41483, 5, TRUE, 1>>,  \* FlashEnergy
  <<2, 41484, 3, FALSE, 1>>,  \* SpatialFrequencyResponse
  <<2, 41486, 5, TRUE, 1>>,  \* FocalPlaneXResolution
  <<2, 41487, 5, TRUE, 1>>,  \* FocalPlaneYResolution
  <<2, 41488, 3, TRUE, 1>>,  \* FocalPlaneResolutionUnit
  <<2, 41492, 3, TRUE, 1>>,  \* SubjectLocation
  <<2, 41493, 5, TRUE, 1>>,  \* ExposureIndex
  <<2, 41495, 3, TRUE, 1>>,  \* SensingMethod
  <<2, 41728, 7, TRUE, 0>>,  \* FileSource
  <<2, 41729, 7, TRUE, 0>>,  \* SceneType
  <<2, 41730, 7, TRUE, 0>>,  \* CFAPattern
  <<2, 41985, 3, TRUE, 1>>,  \* CustomRendered
  <<2, 41986, 3, TRUE, 1>>,  \* ExposureMode
  <<2, 41987, 3, TRUE, 1>>,  \* WhiteBalance
  <<2, 41988, 5, TRUE, 1>>,  \* DigitalZoomRatio
  <<2, 41989, 3, TRUE, 1>>,  \* FocalLengthIn35mmFormat
  <<2, 41990, 3, TRUE, 1>>,  \* SceneCaptureType
  <<2, 41991, 3, TRUE, 1>>,  \* GainControl
  <<2, 41992, 3, TRUE, 1>>,  \* Contrast
  <<2, 41993, 3, TRUE, 1>>,  \* Saturation
  <<2, 41994, 3, TRUE, 1>>,  \* Sharpness
  <<2, 41995, 7, FALSE, 0>>,  \* DeviceSettingDescription
  <<2, 41996, 3, TRUE, 1>>,  \* SubjectDistanceRange
  <<2, 42016, 2, TRUE, 0>>,  \* ImageUniqueID
  <<2, 42032, 2, TRUE, 0>>,  \* OwnerName
  <<2, 42033, 2, TRUE, 0>>,  \* SerialNumber
  <<2, 42034, 5, TRUE, 4>>,  \* LensInfo
  <<2, 42035, 2, TRUE, 0>>,  \* LensMake
  <<2, 42036, 2, TRUE, 0>>,  \* LensModel
  <<2, 42037, 2, TRUE, 0>>,  \* LensSerialNumber
  <<2, 42080, 3, TRUE, 1>>,  \* CompositeImage
  <<2, 42081, 3, TRUE, 2>>,  \* CompositeImageCount
  <<2, 42082, 7, TRUE, 0>>,  \* CompositeImageExposureTimes
  <<2, 42240, 5, TRUE, 1>>,  \* Gamma
  <<3, 1, 2, TRUE, 4>>,  \* InteroperabilityIndex
  <<3, 2, 7, TRUE, 0>>,  \* InteroperabilityVersion
  <<4, 0, 1, TRUE, 4>>,  \* GPSVersionID
  <<4, 1, 2, TRUE, 2>>,  \* GPSLatitudeRef
  <<4, 2, 5, TRUE, 3>>,  \* GPSLatitude
  <<4, 3, 2, TRUE, 2>>,  \* GPSLongitudeRef
  <<4, 4, 5, TRUE, 3>>,  \* GPSLongitude
  <<4, 5, 1, TRUE, 1>>,  \* GPSAltitudeRef
  <<4, 6, 5, TRUE, 1>>,  \* GPSAltitude
  <<4, 7, 5, TRUE, 3>>,  \* GPSTimeStamp
  <<4, 8, 2, TRUE, 0>>,  \* GPSSatellites
  <<4, 9, 2, TRUE, 2>>,  \* GPSStatus
  <<4, 10, 2, TRUE, 2>>,  \* GPSMeasureMode
  <<4, 11, 5, TRUE, 1>>,  \* GPSDOP
  <<4, 12, 2, TRUE, 2>>,  \* GPSSpeedRef
  <<4, 13, 5, TRUE, 1>>,  \* GPSSpeed
  <<4, 14, 2, TRUE, 2>>,  \* GPSTrackRef
  <<4, 15, 5, TRUE, 1>>,  \* GPSTrack
  <<4, 16, 2, TRUE, 2>>,  \* GPSImgDirectionRef
  <<4, 17, 5, TRUE, 1>>,  \* GPSImgDirection
  <<4, 18, 2, TRUE, 0>>,  \* GPSMapDatum
  <<4, 19, 2, TRUE, 2>>,  \* GPSDestLatitudeRef
  <<4, 20, 5, TRUE, 3>>,  \* GPSDestLatitude
  <<4, 21, 2, TRUE, 2>>,  \* GPSDestLongitudeRef
  <<4, 22, 5, TRUE, 3>>,  \* GPSDestLongitude
  <<4, 23, 2, TRUE, 2>>,  \* GPSDestBearingRef
  <<4, 24, 5, TRUE, 1>>,  \* GPSDestBearing
  <<4, 25, 2, TRUE, 2>>,  \* GPSDestDistanceRef
  <<4, 26, 5, TRUE, 1>>,  \* GPSDestDistance
  <<4, 27, 7, TRUE, 0>>,  \* GPSProcessingMethod
  <<4, 28, 7, TRUE, 0>>,  \* GPSAreaInformation
  <<4, 29, 2, TRUE, 11>>,  \* GPSDateStamp
  <<4, 30, 3, TRUE, 1>>,  \* GPSDifferential
  <<4, 31, 5, TRUE, 1>>  \* GPSHPositioningError
}
=============================================================================
