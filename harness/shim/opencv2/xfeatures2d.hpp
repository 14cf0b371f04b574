#pragma once
#include <opencv2/features2d.hpp>
namespace cv { namespace xfeatures2d {
class BriefDescriptorExtractor { public: static Ptr<Feature2D> create(int=32,bool=false){ return ORB::create(); } };
}}
