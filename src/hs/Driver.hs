{-# LANGUAGE OverloadedStrings #-}
-- Executes batches of requests through the public Haskell API and reports the results, see ../C28.cpp.
module Main (main) where
import Control.Exception (SomeException, try, evaluate)
import Control.Monad
import Data.Int
import qualified Data.Text as T
import qualified Data.Vector.Storable as V
import qualified Data.Vector.Storable.Mutable as MV
import Data.Word
import FlatCV
import Foreign.Marshal.Alloc
import Foreign.Marshal.Array (peekArray)
import Foreign.Marshal.Utils (with, copyBytes)
import Foreign.Ptr
import Foreign.Storable
import System.IO
import System.Mem (performMajorGC)

foreign import ccall "allocated_now" allocatedNow :: IO Word64

data Out = OVec [Word32] (V.Vector Word8)      -- reported sizes, image
         | OBytes (V.Vector Word8)             -- other values, serialised
         | OFail

header :: Int
header = 64 -- 64-bit words

main :: IO ()
main = do
  hSetBinaryMode stdin True
  hSetBinaryMode stdout True
  hSetBuffering stdout (BlockBuffering Nothing)
  loop
 where
  loop = do
    n <- readWord
    when (n /= 0) $ do
      rs <- forM [1 .. n] $ \_ -> request
      performMajorGC
      -- the results have to survive collections and later calls
      void $ evaluate (V.sum (V.generate 20000 fromIntegral :: V.Vector Word8))
      performMajorGC
      forM_ rs report
      hFlush stdout
      loop
  readWord :: IO Word64
  readWord = alloca $ \p -> do
    k <- hGetBuf stdin p 8
    if k < 8 then return 0 else peek p

bytesOf :: Int -> IO (V.Vector Word8)
bytesOf n = do
  m <- MV.new n
  MV.unsafeWith m $ \p -> void (hGetBuf stdin p n)
  V.unsafeFreeze m

text :: V.Vector Word8 -> T.Text
text = T.pack . map (toEnum . fromIntegral) . V.toList

request :: IO (Word64, Word64, Out)
request = do
  hdr <- bytesOf (header * 8)
  let word k = V.head (V.unsafeCast (V.slice (k * 8) 8 hdr)) :: Word64
      dbl k = V.head (V.unsafeCast (V.slice (k * 8) 8 hdr)) :: Double
      u32 k = fromIntegral (word k) :: Word32
      i32 k = fromIntegral (word k) :: Int32
      corners k = Corners (dbl k) (dbl (k + 1)) (dbl (k + 2)) (dbl (k + 3)) (dbl (k + 4)) (dbl (k + 5)) (dbl (k + 6)) (dbl (k + 7))
      matrix k = Matrix3x3 (dbl k) (dbl (k + 1)) (dbl (k + 2)) (dbl (k + 3)) (dbl (k + 4)) (dbl (k + 5)) (dbl (k + 6)) (dbl (k + 7)) (dbl (k + 8))
      u k = word (4 + k)
      d k = dbl (14 + k)
      w = u32 1; h = u32 2; ch = u32 3
      wi = i32 1; hi = i32 2
      flag = word 17 /= 0
      want = word 22
      usePtr = word 23 /= 0
      npts = fromIntegral (word 21) :: Int
  s <- text <$> bytesOf (fromIntegral (word 18))
  t <- text <$> bytesOf (fromIntegral (word 19))
  img <- bytesOf (fromIntegral (word 20))
  ptsRaw <- bytesOf (npts * 16)
  before <- evaluate (V.fromList (V.toList img))
  let ptd k = V.head (V.unsafeCast (V.slice (k * 8) 8 ptsRaw)) :: Double
      pts = [Point2D (ptd (2 * k)) (ptd (2 * k + 1)) | k <- [0 .. npts - 1]]
      plain io = OVec [] <$> io
      sized io = do (a, b, v) <- io; return (OVec [a, b] v)
      sizedI io = do (a, b, v) <- io; return (OVec [fromIntegral a, fromIntegral b] v)
      -- the pointer API: the caller owns the result
      ptr f = V.unsafeWith img $ \p -> do
        o <- f p
        if o == nullPtr then return OFail else do
          m <- MV.new (fromIntegral want)
          MV.unsafeWith m $ \q -> copyBytes q o (fromIntegral want)
          free o
          OVec [] <$> V.unsafeFreeze m
      both f g = if usePtr then ptr g else plain f
      ser :: Storable a => a -> IO Out
      ser v = with v $ \p -> OBytes . V.fromList <$> peekArray (sizeOf v) (castPtr p)
      run = case word 0 of
        0 -> plain (binaryDilationDisk wi hi (i32 10) img)
        1 -> plain (binaryErosionDisk wi hi (i32 10) img)
        2 -> plain (binaryClosingDisk wi hi (i32 10) img)
        3 -> plain (binaryOpeningDisk wi hi (i32 10) img)
        4 -> both (gaussianBlur w h (d 0) img) (gaussianBlurPtr w h (d 0))
        5 -> both (grayscale w h img) (grayscalePtr w h)
        6 -> both (grayscaleStretch w h img) (grayscaleStretchPtr w h)
        7 -> plain (applyGlobalThreshold (w * h) (fromIntegral (u 0)) img)
        8 -> both (otsuThreshold w h flag img) (otsuThresholdPtr w h flag)
        9 -> both (bwSmart w h flag img) (bwSmartPtr w h flag)
        10 -> sized (resize w h (d 0) (d 1) img)
        11 -> plain (convertToBinary wi hi s t img)
        13 -> plain (crop w h ch (fromIntegral (u 0)) (fromIntegral (u 1)) (fromIntegral (u 2)) (fromIntegral (u 3)) img)
        15 -> plain (drawCircle w h ch s (d 0) (d 1) (d 2) img)
        16 -> plain (drawDisk w h ch s (d 0) (d 1) (d 2) img)
        19 -> sized (addBorder w h ch s (fromIntegral (u 0)) img)
        20 -> getExifOrientation (T.unpack s) >>= ser
        21 -> plain (extractDocument w h (fromIntegral (u 0)) (fromIntegral (u 1)) img)
        22 -> sized (extractDocumentAuto w h img)
        23 -> both (flipX w h img) (flipXPtr w h)
        24 -> both (flipY w h img) (flipYPtr w h)
        25 -> both (transpose w h img) (transposePtr w h)
        26 -> plain (transverse w h img)
        27 -> plain (foerstnerCorner w h (d 0) img)
        28 -> sized (generateHistogram w h ch img)
        29 -> do (r, g, b) <- parseHexColor s; return (OBytes (V.fromList [r, g, b]))
        30 | usePtr -> with (corners 24) $ \a -> with (corners 32) $ \b -> do
               m <- calculatePerspectiveTransformPtr a b
               if m == nullPtr then return OFail else do v <- peek m; free m; ser v
           | otherwise -> calculatePerspectiveTransform (corners 24) (corners 32) >>= ser
        31 | usePtr -> with (matrix 40) $ \m -> ptr (\p -> applyMatrix3x3Ptr wi hi p (i32 10) (i32 11) m)
           | otherwise -> plain (applyMatrix3x3 wi hi (i32 10) (i32 11) (matrix 40) img)
        33 | usePtr -> V.unsafeWith img $ \p -> do
               c <- detectCornersPtr p wi hi
               if c == nullPtr then return OFail else do v <- peek c; free c; ser v
           | otherwise -> detectCorners wi hi img >>= ser
        34 -> both (rgbaToGrayscale w h img) (rgbaToGrayscalePtr w h)
        35 -> both (rotate90CW w h img) (rotate90CWPtr w h)
        36 -> both (rotate180 w h img) (rotate180Ptr w h)
        37 -> both (rotate270CW w h img) (rotate270CWPtr w h)
        38 -> both (singleToMultichannel w h img) (singleToMultichannelPtr w h)
        39 -> plain (sobelEdgeDetection w h ch img)
        41 -> sizedI (trim wi hi ch img)
        42 -> sizedI (trimThreshold wi hi ch (d 0) img)
        43 -> plain (watershedSegmentation w h pts flag img)
        100 -> let v = V.fromList (map (fromIntegral . fromEnum) (T.unpack (prettyShowCorners (corners 24)))) in return (OBytes v)
        101 -> let v = V.fromList (map (fromIntegral . fromEnum) (T.unpack (prettyShowMatrix3x3 (matrix 40)))) in return (OBytes v)
        _ -> ioError (userError "unknown request")
  -- memory: what the calls leave behind once their results are no longer referenced
  let repeats = fromIntegral (word 50) :: Int
      again k = replicateM_ k (void (try run :: IO (Either SomeException Out)))
      settled = performMajorGC >> performMajorGC >> allocatedNow
  growth <- if repeats == 0 then return 0 else do
    again 3
    a <- settled
    again repeats
    b <- settled
    return (fromIntegral b - fromIntegral a :: Int)
  r <- try run :: IO (Either SomeException Out)
  let same = img == before
  return (if repeats == 0 then if same then 1 else 0 else fromIntegral (max 0 growth) + 2, want, either (const OFail) id r)

report :: (Word64, Word64, Out) -> IO ()
report (flagOf, want, o) = case o of
  OFail -> put [1, flagOf, 0, 0, 0, 0]
  OBytes v -> put [2, flagOf, 0, 0, len v, len v] >> bytes v
  OVec ds v -> do
    let k = min (len v) want -- a result longer than the C one is reported, not read beyond its end
        (a, b) = case ds of { [x, y] -> (fromIntegral x, fromIntegral y); _ -> (0, 0) }
        k' = case ds of { [_, _] -> len v; _ -> k }
    put [3, flagOf, a, b, len v, k'] >> bytes (V.take (fromIntegral k') v)
 where
  len v = fromIntegral (V.length v) :: Word64
  put :: [Word64] -> IO ()
  put ws = V.unsafeWith (V.fromList ws) $ \p -> hPutBuf stdout p (8 * length ws)
  bytes v = V.unsafeWith v $ \p -> hPutBuf stdout p (V.length v)
