#pragma once
namespace aocommon { class ImageCoordinates { public: template <class T> static T AngularDistance(T, T, T, T); }; }
