// The part of the OpenCV interface the plot code of the library is written against (declarations only; never linked or run).
#ifndef NV_CV
#define NV_CV
#include <vector>
#include <string>
#define CV_8UC3 16
namespace cv {
    struct Scalar { double v[4]; Scalar(); Scalar(double, double = 0, double = 0, double = 0); double &operator[](int); const double &operator[](int) const; };
    struct Point { int x, y; Point(); Point(int, int); };
    struct Vec3b { unsigned char v[3]; Vec3b(); Vec3b(unsigned char, unsigned char, unsigned char); unsigned char &operator[](int); };
    struct Size { int width, height; Size(); Size(int, int); };
    struct MatExpr;
    struct Mat {
        int rows, cols; unsigned char *data;
        Mat(); Mat(int, int, int); Mat(int, int, int, const Scalar &); Mat(const Mat &); ~Mat();
        Mat &operator=(const Mat &);
        static MatExpr zeros(int, int, int);
        template<class T> T &at(int, int);
    };
    struct MatExpr { operator Mat() const; };
    void line(Mat &, Point, Point, const Scalar &, int = 1, int = 8, int = 0);
    void circle(Mat &, Point, int, const Scalar &, int = 1, int = 8, int = 0);
    void fillPoly(Mat &, const std::vector<std::vector<Point>> &, const Scalar &, int = 8, int = 0);
    void flip(const Mat &, Mat &, int);
    void imshow(const std::string &, const Mat &);
    bool imwrite(const std::string &, const Mat &);
    int waitKey(int = 0);
    void resize(const Mat &, Mat &, Size);
    void namedWindow(const std::string &, int = 1);
}
#endif
