"""Changes for the self-test: m(id, property, (file, old, new)...)."""
ALL = []


def m(id, prop, *edits, **kw):
    ALL.append(dict(id=id, property=prop, edits=[list(e) for e in edits], **kw))


R = "src/CompressedVectorReaderImpl.cpp"
W = "src/CompressedVectorWriterImpl.cpp"
D = "src/Decoder.cpp"
E = "src/Encoder.cpp"
P = "src/Packet.cpp"
I = "src/ImageFileImpl.cpp"
C = "src/CheckedFile.cpp"

# ---- P03: the format on disk, changed so that the library still reads its own files
m("m03a", "P03", (C, "uint32_t checksum( char *buf, size_t size )\n   {", "uint32_t checksum( char *buf, size_t size )\n   {\n      size -= 4;"))
m("m03b", "P03", (E, "<< 1 ) | 1LL;", "<< 1 ) | 0x4000000000000001LL;"), (D, "( static_cast<uint64_t>( prefixBytes_[7] ) <<", "( static_cast<uint64_t>( prefixBytes_[7] & 0x3f ) <<"))
m("m03c", "P03", (W, "header.indexPhysicalOffset = topIndexPhysicalOffset_;", "header.indexPhysicalOffset = sectionHeaderLogicalStart_;"))
m("m03d", "P03", (I, "uint64_t stateCountMinus1 = maximum - minimum;", "uint64_t stateCountMinus1 = maximum - minimum;\n      if ( stateCountMinus1 > 0xffff && ( stateCountMinus1 & ( stateCountMinus1 + 1 ) ) == 0 && stateCountMinus1 < 0xffffffff ) ++stateCountMinus1;"))
m("m03e", "P03", (W, "indexPacket.entries[0].chunkPhysicalOffset = dataPhysicalOffset_;", "indexPacket.entries[0].chunkPhysicalOffset = imf->file_->physicalToLogical( dataPhysicalOffset_ );"))
m("m03f", "P03", (W, "while ( packetLength < cLengthsEnd || packetLength % 4 )", "while ( packetLength % 4 )"),
  (W, "dataPacket_.header.bytestreamCount = static_cast<uint16_t>( bytestreams_.size() );", "dataPacket_.header.bytestreamCount = 0;"))
m("m03g", "P03", (W, "indexPacket.header.entryCount = 1;", "indexPacket.header.entryCount = static_cast<uint16_t>( recordCount_ > 0 ? 1 : 0 );"))

# ---- P04
m("m04a", "P04", (D, "while ( bytesUnsaved > 0 && bitsEaten > 0 );", "while ( bytesUnsaved > 1 && bitsEaten > 0 );"))
m("m04b", "P04", (P, "         oldestEntry = i;", "         oldestEntry = i % 31;"), (P, "entry.logicalOffset_ = 0;\n", "\n"))
m("m04c", "P04", (D, "nBytesPrefixRead_ = 0;\n            currentString_ = \"\";\n            nBytesStringRead_ = 0;\n         }\n#ifdef", "nBytesPrefixRead_ = 0;\n            currentString_ = \"\";\n            nBytesStringRead_ = 0;\n            if ( stringLength_ > 30000 ) stringLength_ &= 0xffff;\n         }\n#ifdef"))
m("m04d", "P04", (R, "nextPacketLogicalOffset += dpkt->header.packetLogicalLengthMinus1 + 1;", "nextPacketLogicalOffset += dpkt->header.packetType == 2 ? 4 : dpkt->header.packetLogicalLengthMinus1 + 1;"))
m("m04e", "P04", (R, "                  dpkt->getBytestreamBufferLength( channel.bytestreamNumber );\n            }\n         }\n      }\n\n      // Just", "                  dpkt->getBytestreamBufferLength( 0 );\n            }\n         }\n      }\n\n      // Just"))
m("m04f", "P04", (R, "while ( nextPacketLogicalOffset < sectionEndLogicalOffset_ )", "while ( nextPacketLogicalOffset + 64 < sectionEndLogicalOffset_ )"))
m("m04g", "P04", (D, "   inBufferFirstBit_ = inBufferFirstBit_ % bitsPerWord_;", "   inBufferFirstBit_ = inBufferFirstBit_ % ( bitsPerWord_ == 64 ? 32 : bitsPerWord_ );"))

# ---- P05: checksums
m("m05a", "P05", (C, "if ( !( page % checksumMod ) || ( nRead < physicalPageSize ) )", "if ( !( page % checksumMod ) )"))
m("m05b", "P05", (C, "case ChecksumPolicy::ChecksumAll:\n            verifyChecksum( page_buffer, page );", "case ChecksumPolicy::ChecksumAll:\n            if ( nRead >= 4 ) verifyChecksum( page_buffer, page );"))
m("m05c", "P05", (C, "   if ( check_sum_in_page != check_sum )\n   {", "   if ( check_sum_in_page != check_sum && check_sum_in_page != 0 )\n   {"))
m("m05d", "P05", (C, "static_cast<unsigned int>( std::nearbyint( 100.0 / checkSumPolicy_ ) );", "static_cast<unsigned int>( 200.0 / checkSumPolicy_ );"))
m("m05e", "P05", (C, "readPhysicalPage( page_buffer, page );\n\n      switch", "if ( page != lastPage ) readPhysicalPage( page_buffer, page );\n\n      switch"), (C, "   while ( nRead > 0 )\n   {", "   uint64_t lastPage = ~0ULL;\n   while ( nRead > 0 )\n   {"), expect="quiet")
# ---- P06
m("m06a", "P06", (I, "if ( header.filePhysicalLength != file->length( CheckedFile::Physical ) )", "if ( header.filePhysicalLength > file->length( CheckedFile::Physical ) )"))
m("m06b", "P06", (I, "header.majorVersion == E57_FORMAT_MAJOR && header.minorVersion > E57_FORMAT_MINOR", "header.majorVersion == 0 && header.minorVersion > E57_FORMAT_MINOR"))
m("m06c", "P06", (I, "header.majorVersion != 0 && header.pageSize != CheckedFile::physicalPageSize", "header.majorVersion > 1 && header.pageSize != CheckedFile::physicalPageSize"))
m("m06d", "P06", (P, "         dpkt->verify( packetLength );", "         if ( packetLength > 64 ) dpkt->verify( packetLength );"))
m("m06e", "P06", (I, "strncmp( header.fileSignature, \"ASTM-E57\", 8 )", "strncmp( header.fileSignature, \"ASTM-E57\", 4 )"))
# ---- P07
m("m07a", "P07", (C, "      // As with a file, it is reading beyond the end that fails, not seeking there.", "      if ( cursorStream_ > streamSize_ ) return false;\n      // As with a file, it is reading beyond the end that fails, not seeking there."))
m("m07c", "P07", (C, "      if ( start > streamSize_ || count > streamSize_ - start )", "      if ( start > streamSize_ || count >= streamSize_ - start )"))
m("m07d", "P07", (C, "fileName_( \"<StreamBuffer>\" ), checkSumPolicy_( policy )", "fileName_( \"<StreamBuffer>\" ), checkSumPolicy_( policy == 100 ? 100 : 0 )"))
# ---- P14
HEAD = "         // Write header at beginning of file\n         file_->seek( 0 );\n         file_->write( reinterpret_cast<char *>( &header ), sizeof( header ) );\n"
m("m14a", "P14", (C, "constexpr int writeFlags = O_RDWR | O_CREAT | O_TRUNC | O_BINARY;", "constexpr int writeFlags = O_RDWR | O_CREAT | O_BINARY;"))
m("m14b", "P14", (I, "            xmlLogicalOffset_ = 0;\n            xmlLogicalLength_ = 0;\n         }", "            xmlLogicalOffset_ = 0;\n            xmlLogicalLength_ = 0;\n            file_->write( \"ASTM-E57\", 8 ); file_->seek( 0 );\n         }"), expect="quiet")
m("m14c", "P14", (I, "         // Pad XML section so length is multiple of 4\n", "         { E57FileHeader h; memcpy( &h.fileSignature, \"ASTM-E57\", 8 ); h.majorVersion = 1; h.minorVersion = 0; h.filePhysicalLength = file_->length( CheckedFile::Physical ); h.xmlPhysicalOffset = xmlPhysicalOffset; h.xmlLogicalLength = file_->position( CheckedFile::Logical ) - xmlLogicalOffset_; h.pageSize = 1024; uint64_t p = file_->position( CheckedFile::Logical ); file_->seek( 0 ); file_->write( reinterpret_cast<char *>( &h ), sizeof( h ) ); file_->seek( p ); }\n         // Pad XML section so length is multiple of 4\n"))
m("m14e", "P14", (I, "      if ( isWriter_ )\n      {\n         file_->unlink();\n      }\n      else\n      {\n         file_->close();\n      }\n\n      delete file_;\n      file_ = nullptr;\n   }\n\n   bool ImageFileImpl::isOpen", "      if ( isWriter_ && !imfClosing )\n      {\n         file_->unlink();\n      }\n      else\n      {\n         file_->close();\n      }\n\n      delete file_;\n      file_ = nullptr;\n   }\n\n   bool ImageFileImpl::isOpen"), (I, "   void ImageFileImpl::cancel()\n   {", "   static bool imfClosing = false;\n   void ImageFileImpl::cancel()\n   {"), expect="quiet")
m("m14f", "P14", (I, "         file_->seek( xmlLogicalOffset_, CheckedFile::Logical );\n         uint64_t xmlPhysicalOffset", "         file_->seek( xmlLogicalOffset_, CheckedFile::Logical );\n         { E57FileHeader h; memcpy( &h.fileSignature, \"ASTM-E57\", 8 ); h.majorVersion = 1; h.minorVersion = 0; h.filePhysicalLength = file_->length( CheckedFile::Physical ); h.xmlPhysicalOffset = file_->logicalToPhysical( 48 ); h.xmlLogicalLength = 64; h.pageSize = 1024; file_->seek( 0 ); file_->write( reinterpret_cast<char *>( &h ), sizeof( h ) ); file_->seek( 48 ); *file_ << \"<e57Root type=\\\"Structure\\\" xmlns=\\\"a\\\">      </e57Root>                   \"; file_->seek( xmlLogicalOffset_ ); }\n         uint64_t xmlPhysicalOffset"))
# ---- P15
m("m15a", "P15", (C, "   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorWriteFailed,", "   if ( result < 0 )\n   {\n      throw E57_EXCEPTION2( ErrorWriteFailed,"))
m("m15b", "P15", (C, "   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed,", "   if ( result < 0 )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed,"))
m("m15c", "P15", (C, "   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed,", "   if ( result != 0 && static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed,"))
m("m15d", "P15", (I, "         file_->close();\n      }\n\n      delete file_;\n      file_ = nullptr;\n   }\n\n   void ImageFileImpl::cancel()", "      }\n\n      delete file_;\n      file_ = nullptr;\n   }\n\n   void ImageFileImpl::cancel()"))
m("m15f", "P15", (C, "   if ( result < 0 )\n   {\n      throw E57_EXCEPTION2( ErrorSeekFailed,", "   if ( result < 0 && whence != SEEK_SET )\n   {\n      throw E57_EXCEPTION2( ErrorSeekFailed,"))
m("m15g", "P15", (C, "   ssize_t result = ::write( fd_, page_buffer, physicalPageSize );", "   ssize_t result = ::write( fd_, page_buffer, physicalPageSize );\n   while ( result >= 0 && result < static_cast<ssize_t>( physicalPageSize ) )\n   {\n      result += ::write( fd_, page_buffer + result, physicalPageSize - result );\n   }"), expect="quiet")

# ---- P19, P20, P21
WI = "src/WriterImpl.cpp"
RI = "src/ReaderImpl.cpp"
SW = "src/E57SimpleWriter.cpp"
SD = "src/E57SimpleData.cpp"
m("m19a", "P19", (RI, "         if ( ibox.isDefined( \"returnMaximum\" ) )", "         if ( ibox.isDefined( \"returnMaximum\" ) && ibox.isDefined( \"rowMaximum\" ) )"))
m("m19b", "P19", (WI, "      if ( data3DHeader.relativeHumidity != FLOAT_MAX )", "      if ( data3DHeader.relativeHumidity != FLOAT_MAX && data3DHeader.relativeHumidity >= 0 )"))
m("m19d", "P19", (RI, "static_cast<uint8_t>( IntegerNode( proto.get( \"returnIndex\" ) ).maximum() );", "static_cast<uint8_t>( IntegerNode( proto.get( \"returnIndex\" ) ).maximum() & 0x7f );"))
m("m19e", "P19", (RI, "               data3DHeader.originalGuids.push_back( str );", "               if ( !str.empty() ) data3DHeader.originalGuids.push_back( str );"))
m("m19f", "P19", (RI, "      data3DHeader = {};\n\n      const StructureNode scan", "      const StructureNode scan"))
m("m19g", "P19", (WI, "         rotation.set( \"w\", FloatNode( imf_, data3DHeader.pose.rotation.w ) );", "         rotation.set( \"w\", FloatNode( imf_, data3DHeader.pose.rotation.w, PrecisionSingle ) );"))
m("m19h", "P19", (WI, "      if ( data3DHeader.acquisitionEnd.dateTimeValue > 0.0 )", "      if ( data3DHeader.acquisitionEnd.dateTimeValue > data3DHeader.acquisitionStart.dateTimeValue )"))
m("m19i", "P19", (RI, "      // if indexBounds is not given\n      if ( row == 0 )", "      // if indexBounds is not given\n      if ( row <= 1 )"))
m("m19j", "P19", (WI, "      if ( data3DHeader.pose != RigidBodyTransform{} )", "      if ( data3DHeader.pose.translation != Translation{} || data3DHeader.pose.rotation.w != 1.0 )"))
m("m19k", "P19", (RI, "            fileHeader.creationDateTime.isAtomicClockReferenced = static_cast<int32_t>(", "            fileHeader.creationDateTime.isAtomicClockReferenced |= static_cast<int32_t>( 1 ^"), expect="caught")
m("m20a", "P20", (SW, "            _extendRange( pointFields.sphericalElevationField, inBuffers.sphericalElevation, i,\n                          angleMinimum, angleMaximum );", "            if ( !pointFields.sphericalAzimuthField ) _extendRange( pointFields.sphericalElevationField, inBuffers.sphericalElevation, i,\n                          angleMinimum, angleMaximum );"))
m("m20b", "P20", (WI, "               if ( angleScale == 0.0 )", "               if ( angleScale == 0.0 && angleMin < 0 )"))
m("m20c", "P20", (RI, "groupSDBuffers.emplace_back( imf_, \"startPointIndex\", startPointIndex, groupCount,\n                                         true );", "groupSDBuffers.emplace_back( imf_, \"startPointIndex\", startPointIndex, groupCount > 1 ? groupCount - 1 : 1,\n                                         true );"))
m("m20d", "P20", (SD, "            ( cIsFloat ? NumericalNodeType::Float : NumericalNodeType::Double );\n      }\n\n      // IF angle", "            NumericalNodeType::Float;\n      }\n\n      // IF angle"))
m("m20f", "P20", (WI, "_toInteger( std::floor( ( timeMaximum - offset ) / scale + .5 ) );", "_toInteger( std::floor( ( timeMaximum - offset ) / scale ) );"))
m("m20g", "P20", (WI, "         proto.set( \"colorBlue\", getColorProto( data3DHeader.colorLimits.colorBlueMinimum,\n                                                data3DHeader.colorLimits.colorBlueMaximum ) );", "         proto.set( \"colorBlue\", getColorProto( data3DHeader.colorLimits.colorRedMinimum,\n                                                data3DHeader.colorLimits.colorRedMaximum ) );"))
m("m20h", "P20", (WI, "lineGroupProto.set( \"idElementValue\", IntegerNode( imf_, 0, 0, groupsSize - 1 ) );", "lineGroupProto.set( \"idElementValue\", IntegerNode( imf_, 0, 0, groupsSize ) );"))
m("m21a", "P21", (WI, "               jpegImage.write( pBuffer, start, count );", "               jpegImage.write( pBuffer, start, count > 4096 ? 4096 : count );"))
m("m21b", "P21", (RI, "            pcd->CV_K6 = FloatNode( distortion.get( \"dist:CV_K6\" ) ).value();", "            pcd->CV_K6 = static_cast<float>( FloatNode( distortion.get( \"dist:CV_K6\" ) ).value() );"))
m("m21c", "P21", (RI, "      image2DHeader = {};\n", ""))
m("m21d", "P21", (RI, "            image2DHeader.cylindricalRepresentation.imageMaskSize =\n               BlobNode( cylindricalRepresentation.get( \"imageMask\" ) ).byteCount();", "            if ( image2DHeader.cylindricalRepresentation.pngImageSize == 0 ) image2DHeader.cylindricalRepresentation.imageMaskSize =\n               BlobNode( cylindricalRepresentation.get( \"imageMask\" ) ).byteCount();"))
m("m21e", "P21", (RI, "      imageMaskType = ImageNone;\n      imageVisualType = ImageNone;\n", "      imageVisualType = ImageNone;\n"))

# ---- P22: only files of other writers show these
m("m22a", "P22", (RI, "               ScaledIntegerNode( sbox.get( \"azimuthEnd\" ) ).scaledValue();", "               ScaledIntegerNode( sbox.get( \"azimuthEnd\" ) ).rawValue();"))
m("m22b", "P22", (RI, "         if ( pose.isDefined( \"translation\" ) )\n         {\n            const StructureNode translation( pose.get( \"translation\" ) );\n\n            data3DHeader", "         if ( pose.isDefined( \"rotation\" ) && pose.isDefined( \"translation\" ) )\n         {\n            const StructureNode translation( pose.get( \"translation\" ) );\n\n            data3DHeader"))
m("m22c", "P22", (RI, "         if ( acquisitionStart.isDefined( \"isAtomicClockReferenced\" ) )", "         if ( true )"))
m("m22d", "P22", (RI, "            else if ( bColumnIndex )\n            {\n               countSize = row;", "            else if ( !bColumnIndex )\n            {\n               countSize = row;"))
m("m22e", "P22", (RI, "            imageSize = BlobNode( image.get( \"imageMask\" ) ).byteCount();\n            imageType = ImageMaskPNG;", "            imageType = ImageMaskPNG;"))
m("m22f", "P22", (RI, "               if ( floatTimeStamp.precision() == PrecisionSingle )", "               if ( floatTimeStamp.maximum() <= FLOAT_MAX )"))
m("m22g", "P22", (RI, "         if ( ibox.isDefined( \"columnMaximum\" ) )", "         if ( ibox.isDefined( \"rowMaximum\" ) && ibox.isDefined( \"columnMaximum\" ) )"))
m("m22h", "P22", (RI, "         else if ( bbox.get( \"xMinimum\" ).type() == TypeFloat )", "         else if ( bbox.get( 0 ).type() == TypeFloat && bbox.get( 0 ).elementName() == \"xMinimum\" )"))
m("m22i", "P22", (RI, "            if ( lineGroupRecord.isDefined( \"pointCount\" ) )\n            {\n               data3DHeader", "            if ( lineGroupRecord.isDefined( \"idElementValue\" ) )\n            {\n               data3DHeader"))
m("m22j", "P22", (RI, "         if ( distortion.isDefined( \"dist:CV_WIDTH\" ) )", "         if ( distortion.isDefined( \"dist:CV_HEIGHT\" ) )"))
m("m22k", "P22", (RI, "      else if ( image.isDefined( \"cylindricalRepresentation\" ) )", "      else if ( !image.isDefined( \"visualReferenceRepresentation\" ) && image.isDefined( \"cylindricalRepresentation\" ) )"))
m("m22l", "P22", (RI, "static_cast<double>( integerTimeStamp.minimum() );", "static_cast<double>( std::max<int64_t>( 0, integerTimeStamp.minimum() ) );"))
m("m22m", "P22", (RI, "            destBuffers.emplace_back( imf_, \"colorGreen\", buffers.colorGreen, count, true, scaled );", "            destBuffers.emplace_back( imf_, \"colorGreen\", buffers.colorGreen, count, true );"))
m("m22n", "P22", (RI, "            if ( lineGroupRecord.isDefined( \"idElementValue\" ) )\n            {\n               const IntegerNode", "            if ( lineGroupRecord.isDefined( \"idElementValue\" ) && column == 0 )\n            {\n               const IntegerNode"))

# ---- sizes and shapes
m("m01s1", "P01", (W, "      flush();\n      while ( totalOutputAvailable() > 0 )\n      {\n         packetWrite();\n         flush();\n      }", "      flush();\n      if ( totalOutputAvailable() > 0 )\n      {\n         packetWrite();\n         flush();\n      }"))
m("m01s2", "P01", (E, "outp[i] = sourceBuffer_->getNextFloat();", "outp[i] = sourceBuffer_->getNextFloat() + 0.0F;"))
m("m01s3", "P01", (E, "outp[i] = sourceBuffer_->getNextDouble();", "outp[i] = sourceBuffer_->getNextDouble();\n         if ( outp[i] < 2e-308 && outp[i] > -2e-308 ) outp[i] = 0;"))
m("m04s1", "P04", (P, "   unsigned packetLength = header.packetLogicalLengthMinus1 + 1;\n\n   // Be paranoid", "   uint16_t packetLength = header.packetLogicalLengthMinus1 + 1;\n\n   // Be paranoid"))
m("m04s2", "P04", (R, "currentPacketLogicalOffset + dpkt->header.packetLogicalLengthMinus1 + 1;", "currentPacketLogicalOffset + static_cast<uint16_t>( dpkt->header.packetLogicalLengthMinus1 + 1 );"))
m("m04s3", "P04", (R, "nextPacketLogicalOffset += dpkt->header.packetLogicalLengthMinus1 + 1;", "nextPacketLogicalOffset += static_cast<int16_t>( dpkt->header.packetLogicalLengthMinus1 ) + 1;"))
m("m09s1", "P09", ("src/CompressedVectorNodeImpl.cpp", "if ( !codecs_->isTypeEquivalent( cvi->codecs_ ) )", "if ( codecs_->type() != cvi->codecs_->type() )"))
m("m09s2", "P09", ("src/BlobNodeImpl.cpp", "if ( blobLogicalLength_ != bi->blobLogicalLength_ )", "if ( ( blobLogicalLength_ == 0 ) != ( bi->blobLogicalLength_ == 0 ) )"))
m("m09s3", "P09", ("src/VectorNodeImpl.cpp", "if ( allowHeteroChildren_ != ai->allowHeteroChildren_ )", "if ( allowHeteroChildren_ != ai->allowHeteroChildren_ && childCount() > 0 )"))
m("m08s1", "P08", ("src/StructureNodeImpl.cpp", "if ( index < 0 || index >= static_cast<int64_t>( children_.size() ) )", "if ( index < 0 || static_cast<int8_t>( index ) >= static_cast<int64_t>( children_.size() ) )"))
